From 7a9dda26e3f9b3dbf046795bb532b999ed7861bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 01/42] fix: LazyTask::then() keeps the continuations alive
 until the lazy task is started

---
 qcoro/impl/taskbase.h | 8 ++------
 qcoro/qcorotask.h     | 8 ++++----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/qcoro/impl/taskbase.h b/qcoro/impl/taskbase.h
index 9a62449..6871a9c 100644
--- a/qcoro/impl/taskbase.h
+++ b/qcoro/impl/taskbase.h
@@ -132,9 +132,7 @@ inline auto TaskBase<T, TaskImpl, PromiseType>::handleException(ErrorCallback &e
 
 template<typename T, template<typename> class TaskImpl, typename PromiseType>
 template<typename TaskT, typename ThenCallback, typename ErrorCallback, typename R>
-inline auto TaskBase<T, TaskImpl, PromiseType>::thenImpl(TaskT task_, ThenCallback &&thenCallback, ErrorCallback &&errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>> {
-    auto thenCb = std::forward<ThenCallback>(thenCallback);
-    auto errCb = std::forward<ErrorCallback>(errorCallback);
+inline auto TaskBase<T, TaskImpl, PromiseType>::thenImpl(TaskT task_, ThenCallback thenCb, ErrorCallback errCb) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>> {
     const auto &task = static_cast<const TaskImpl<T> &>(task_);
 
     if constexpr (std::is_void_v<typename TaskImpl<T>::value_type>) {
@@ -165,9 +163,7 @@ inline auto TaskBase<T, TaskImpl, PromiseType>::thenImpl(TaskT task_, ThenCallba
 
 template<typename T, template<typename> class TaskImpl, typename PromiseType>
 template<typename TaskT, typename ThenCallback, typename ErrorCallback, typename R>
-inline auto TaskBase<T, TaskImpl, PromiseType>::thenImplRef(TaskT &task_, ThenCallback &&thenCallback, ErrorCallback &&errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>> {
-    auto thenCb = std::forward<ThenCallback>(thenCallback);
-    auto errCb = std::forward<ErrorCallback>(errorCallback);
+inline auto TaskBase<T, TaskImpl, PromiseType>::thenImplRef(TaskT &task_, ThenCallback thenCb, ErrorCallback errCb) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>> {
     const auto &task = static_cast<const TaskImpl<T> &>(task_);
 
     if constexpr (std::is_void_v<typename TaskImpl<T>::value_type>) {
diff --git a/qcoro/qcorotask.h b/qcoro/qcorotask.h
index 0f1bd8f..56c6d23 100644
--- a/qcoro/qcorotask.h
+++ b/qcoro/qcorotask.h
@@ -426,10 +426,10 @@ private:
              typename U = typename detail::isTask<R>::return_type>
     static auto handleException(ErrorCallback &errCb, const std::exception &exception) -> U;
 
-    template<typename TaskT, typename ThenCallback, typename ErrorCallback, typename R = cb_invoke_result_t<ThenCallback, T>>
-    static auto thenImpl(TaskT task, ThenCallback &&thenCallback, ErrorCallback &&errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>>;
-    template<typename TaskT, typename ThenCallback, typename ErrorCallback, typename R = cb_invoke_result_t<ThenCallback, T>>
-    static auto thenImplRef(TaskT &task, ThenCallback &&thenCallback, ErrorCallback &&errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>>;
+    template<typename TaskT, typename ThenCallback, typename ErrorCallback, typename R = cb_invoke_result_t<ThenCallback &, T>>
+    static auto thenImpl(TaskT task, ThenCallback thenCallback, ErrorCallback errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>>;
+    template<typename TaskT, typename ThenCallback, typename ErrorCallback, typename R = cb_invoke_result_t<ThenCallback &, T>>
+    static auto thenImplRef(TaskT &task, ThenCallback thenCallback, ErrorCallback errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>>;
 
 protected:
     std::coroutine_handle<PromiseType> mCoroutine = {};
-- 
2.43.0


From e2b82ee337496f8774acaf22696cd760d9fd0a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:56 +0000
Subject: [PATCH 02/42] fix: move-assigning a generator destroys the coroutine
 it owned and tolerates self-assignment

---
 qcoro/qcoroasyncgenerator.h |  9 +++++++--
 qcoro/qcorogenerator.h      | 11 ++++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/qcoro/qcoroasyncgenerator.h b/qcoro/qcoroasyncgenerator.h
index b976dbd..d61315f 100644
--- a/qcoro/qcoroasyncgenerator.h
+++ b/qcoro/qcoroasyncgenerator.h
@@ -11,6 +11,7 @@
 
 #include <iterator>
 #include <exception>
+#include <utility>
 
 namespace QCoro {
 
@@ -303,8 +304,12 @@ public:
 
     /// Move-assignment operator.
     AsyncGenerator& operator=(AsyncGenerator &&other) noexcept {
-        m_coroutine = other.m_coroutine;
-        other.m_coroutine = nullptr;
+        if (this != &other) {
+            const auto previous = std::exchange(m_coroutine, std::exchange(other.m_coroutine, nullptr));
+            if (previous) {
+                previous.destroy();
+            }
+        }
         return *this;
     }
 
diff --git a/qcoro/qcorogenerator.h b/qcoro/qcorogenerator.h
index a325463..71d5490 100644
--- a/qcoro/qcorogenerator.h
+++ b/qcoro/qcorogenerator.h
@@ -6,6 +6,7 @@
 
 #include <variant>
 #include <exception>
+#include <utility>
 
 #include "coroutine.h"
 
@@ -242,9 +243,13 @@ public:
     }
     Generator(const Generator &) = delete;
     Generator &operator=(Generator &&other) noexcept {
-            mGeneratorCoroutine = other.mGeneratorCoroutine;
-            other.mGeneratorCoroutine = std::coroutine_handle<promise_type>::from_address(nullptr);
-            return *this;
+        if (this != &other) {
+            const auto previous = std::exchange(mGeneratorCoroutine, std::exchange(other.mGeneratorCoroutine, nullptr));
+            if (previous) {
+                previous.destroy();
+            }
+        }
+        return *this;
     };
     Generator &operator=(const Generator &) = delete;
     /**
-- 
2.43.0


From 73bcc3fee8e3fce0bad5a2b958a0f289ca06c33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:51 +0000
Subject: [PATCH 03/42] fix: a signal's timeout resumes the current awaiter
 only, also when the emitter is gone

---
 qcoro/core/qcorosignal.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qcoro/core/qcorosignal.h b/qcoro/core/qcorosignal.h
index d68586c..64a952e 100644
--- a/qcoro/core/qcorosignal.h
+++ b/qcoro/core/qcorosignal.h
@@ -110,7 +110,10 @@ public:
 
     void handleTimeout(std::coroutine_handle<> awaitingCoroutine) {
         if (mTimeoutTimer) {
-            QObject::connect(mTimeoutTimer.get(), &QTimer::timeout, mObj,
+            // Each await replaces the handler of the previous one. The timer is also the context object, so that
+            // the timeout still occurs when mObj is destroyed in the meantime.
+            QObject::disconnect(mTimeoutConn);
+            mTimeoutConn = QObject::connect(mTimeoutTimer.get(), &QTimer::timeout, mTimeoutTimer.get(),
                 [this, awaitingCoroutine]() {
                     QObject::disconnect(mConn);
                     awaitingCoroutine.resume();
@@ -160,6 +163,7 @@ protected:
     QPointer<T> mObj;
     FuncPtr mFuncPtr;
     QMetaObject::Connection mConn;
+    QMetaObject::Connection mTimeoutConn;
     std::unique_ptr<QTimer> mTimeoutTimer;
 };
 
-- 
2.43.0


From e8c026cedde86633eaec4a824850f43e0d013642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:03 +0000
Subject: [PATCH 04/42] fix: a signal listener is resumed only while it awaits
 the next emission

---
 qcoro/core/qcorosignal.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qcoro/core/qcorosignal.h b/qcoro/core/qcorosignal.h
index 64a952e..39c93e4 100644
--- a/qcoro/core/qcorosignal.h
+++ b/qcoro/core/qcorosignal.h
@@ -275,6 +275,8 @@ public:
                 mQueue.setAwaiter(awaitingCoroutine);
             }
             result_type await_resume() {
+                // Not awaiting anymore: emissions that arrive from now on are only queued.
+                mQueue.setAwaiter(nullptr);
                 return mQueue.dequeue();
             }
 
-- 
2.43.0


From a6493c677c6508797f36e5c438c8db94b138d0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:56 +0000
Subject: [PATCH 05/42] fix: sleepUntil() measures the time point against its
 own clock

---
 qcoro/core/qcorotimer.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qcoro/core/qcorotimer.h b/qcoro/core/qcorotimer.h
index 833c8f0..af5ee27 100644
--- a/qcoro/core/qcorotimer.h
+++ b/qcoro/core/qcorotimer.h
@@ -66,8 +66,7 @@ QCoro::Task<> sleepFor(const std::chrono::duration<Rep, Period> &timeout) {
 //! A coroutine that suspends until the specified time.
 template<typename Clock, typename Duration>
 QCoro::Task<> sleepUntil(const std::chrono::time_point<Clock, Duration> &when) {
-    const auto tp = when.time_since_epoch() - std::chrono::steady_clock::now().time_since_epoch();
-    return sleepFor(tp);
+    return sleepFor(when - Clock::now());
 }
 
 } // namespace QCoro
-- 
2.43.0


From b69ea97563744f6d04a21c3d25bf40b7655179a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:09 +0000
Subject: [PATCH 06/42] fix: sleeping for a negative duration does not suspend
 forever

---
 qcoro/core/qcorotimer.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qcoro/core/qcorotimer.h b/qcoro/core/qcorotimer.h
index af5ee27..d955577 100644
--- a/qcoro/core/qcorotimer.h
+++ b/qcoro/core/qcorotimer.h
@@ -11,6 +11,9 @@
 #include <QPointer>
 #include <QTimer>
 
+#include <algorithm>
+#include <chrono>
+
 /*! \cond internal */
 
 namespace QCoro::detail {
@@ -59,7 +62,8 @@ template<typename Rep, typename Period>
 QCoro::Task<> sleepFor(const std::chrono::duration<Rep, Period> &timeout) {
     QTimer timer;
     timer.setSingleShot(true);
-    timer.start(std::chrono::duration_cast<std::chrono::milliseconds>(timeout));
+    // QTimer never times out with a negative interval
+    timer.start(std::max(std::chrono::duration_cast<std::chrono::milliseconds>(timeout), std::chrono::milliseconds{0}));
     co_await timer;
 }
 
-- 
2.43.0


From 589444b6db112a299ccb34c88761e26d3aa51e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:09 +0000
Subject: [PATCH 07/42] fix: QCoroTimer::waitForTimeout() returns at once when
 the timer is gone

---
 qcoro/core/qcorotimer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qcoro/core/qcorotimer.cpp b/qcoro/core/qcorotimer.cpp
index 28fa516..29f8f4f 100644
--- a/qcoro/core/qcorotimer.cpp
+++ b/qcoro/core/qcorotimer.cpp
@@ -37,7 +37,7 @@ QCoroTimer::QCoroTimer(QTimer *timer)
     : mTimer(timer) {}
 
 QCoro::Task<> QCoroTimer::waitForTimeout() const {
-    if (mTimer->isActive()) {
+    if (mTimer && mTimer->isActive()) {
         co_await qCoro(mTimer.data(), &QTimer::timeout);
     }
 }
-- 
2.43.0


From c133b4dfeab7dfb77e0af2e5ded637caa524256c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:53 +0000
Subject: [PATCH 08/42] fix: do not crash or block when a cancelled or default
 QFuture is awaited

The future of a cancelled computation has no result: awaiting it read a result that is not there (or
blocked for a computation that never finishes), and awaiting a future that was cancelled but whose
computation still runs completed before the computation had finished.
---
 qcoro/core/qcorofuture.h | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/qcoro/core/qcorofuture.h b/qcoro/core/qcorofuture.h
index 0e028d8..c9754c4 100644
--- a/qcoro/core/qcorofuture.h
+++ b/qcoro/core/qcorofuture.h
@@ -28,7 +28,9 @@ private:
         QCORO_DEFAULT_MOVE(WaitForFinishedOperationBase)
 
         bool await_ready() const noexcept {
-            return mFuture.isFinished() || mFuture.isCanceled();
+            // A canceled future may still be running: its result is not settled (and waiting
+            // for it would block) until it has finished as well.
+            return mFuture.isFinished();
         }
 
         void await_suspend(std::coroutine_handle<> awaitingCoroutine) {
@@ -48,7 +50,15 @@ private:
     public:
         using WaitForFinishedOperationBase<T>::WaitForFinishedOperationBase;
 
-        T await_resume() const {
+        T await_resume() {
+            // This won't block, the QFuture is already finished, but it re-throws the stored exception.
+            this->mFuture.waitForFinished();
+            if constexpr (std::is_default_constructible_v<T>) {
+                // The future was canceled (or its promise abandoned) before it had any result.
+                if (!this->mFuture.isResultReadyAt(0)) {
+                    return T{};
+                }
+            }
             return this->mFuture.result();
         }
     };
@@ -75,6 +85,20 @@ private:
         using WaitForFinishedOperationBase<T>::WaitForFinishedOperationBase;
 
         T_ await_resume() {
+            // This won't block, the QFuture is already finished, but it re-throws the stored exception.
+            this->mFuture.waitForFinished();
+            if constexpr (std::is_copy_constructible_v<T_>) {
+                // The result cannot be taken out of a canceled future.
+                if (!this->mFuture.isValid() && this->mFuture.isResultReadyAt(0)) {
+                    return this->mFuture.result();
+                }
+            }
+            if constexpr (std::is_default_constructible_v<T_>) {
+                // The future was canceled (or its promise abandoned) before it had any result.
+                if (!this->mFuture.isValid() || !this->mFuture.isResultReadyAt(0)) {
+                    return T_{};
+                }
+            }
             return this->mFuture.takeResult();
         }
     };
-- 
2.43.0


From 11d43bc0551ccee9411befc2b93b4d7cd4772541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:59 +0000
Subject: [PATCH 09/42] fix: do not read from a device that was destroyed while
 being awaited

A device can go away between the wake-up and the resumption of the awaiting coroutine, or between
creating and starting a wait; the guarded pointer was dereferenced regardless.
---
 qcoro/core/qcoroiodevice.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/qcoro/core/qcoroiodevice.cpp b/qcoro/core/qcoroiodevice.cpp
index 0d457b8..5add1db 100644
--- a/qcoro/core/qcoroiodevice.cpp
+++ b/qcoro/core/qcoroiodevice.cpp
@@ -41,7 +41,8 @@ void QCoroIODevice::ReadOperation::await_suspend(std::coroutine_handle<> awaitin
 }
 
 QByteArray QCoroIODevice::ReadOperation::await_resume() {
-    return mResultCb(mDevice);
+    // The device may have been destroyed before the coroutine got resumed.
+    return mDevice ? mResultCb(mDevice) : QByteArray{};
 }
 
 QCoroIODevice::ReadAllOperation::ReadAllOperation(QIODevice *device)
@@ -56,7 +57,7 @@ QCoroIODevice::QCoroIODevice(QIODevice *device)
 
 QCoro::Task<QByteArray> QCoroIODevice::readAll(std::chrono::milliseconds timeout) {
     const auto device = mDevice;
-    if (!co_await waitForReadyRead(timeout)) {
+    if (!co_await waitForReadyRead(timeout) || !device) {
         co_return QByteArray{};
     }
 
@@ -65,7 +66,7 @@ QCoro::Task<QByteArray> QCoroIODevice::readAll(std::chrono::milliseconds timeout
 
 QCoro::Task<QByteArray> QCoroIODevice::read(qint64 maxSize, std::chrono::milliseconds timeout) {
     const auto device = mDevice;
-    if (!co_await waitForReadyRead(timeout)) {
+    if (!co_await waitForReadyRead(timeout) || !device) {
         co_return QByteArray{};
     }
 
@@ -74,7 +75,7 @@ QCoro::Task<QByteArray> QCoroIODevice::read(qint64 maxSize, std::chrono::millise
 
 QCoro::Task<QByteArray> QCoroIODevice::readLine(qint64 maxSize, std::chrono::milliseconds timeout) {
     const auto device = mDevice;
-    if (!co_await waitForReadyRead(timeout)) {
+    if (!co_await waitForReadyRead(timeout) || !device) {
         co_return QByteArray{};
     }
 
@@ -102,7 +103,7 @@ QCoro::Task<bool> QCoroIODevice::waitForReadyRead(int timeout_msecs) {
 }
 
 QCoro::Task<bool> QCoroIODevice::waitForReadyRead(std::chrono::milliseconds timeout) {
-    if (!mDevice->isReadable()) {
+    if (!mDevice || !mDevice->isReadable()) {
         co_return false;
     }
     if (mDevice->bytesAvailable() > 0) {
@@ -118,7 +119,7 @@ QCoro::Task<std::optional<qint64>> QCoroIODevice::waitForBytesWritten(int timeou
 }
 
 QCoro::Task<std::optional<qint64>> QCoroIODevice::waitForBytesWritten(std::chrono::milliseconds timeout) {
-    if (!mDevice->isWritable()) {
+    if (!mDevice || !mDevice->isWritable()) {
         co_return std::nullopt;
     }
     if (mDevice->bytesToWrite() == 0) {
-- 
2.43.0


From 4102a00c055a2e61a69b03228f39e5d4223539b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:59 +0000
Subject: [PATCH 10/42] fix: report closing of a device as failure of the waits

waitForReadyRead() returned true and waitForBytesWritten() returned zero bytes written when the device
was closed while being awaited.
---
 qcoro/core/qcoroiodevice.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qcoro/core/qcoroiodevice.cpp b/qcoro/core/qcoroiodevice.cpp
index 5add1db..54def8d 100644
--- a/qcoro/core/qcoroiodevice.cpp
+++ b/qcoro/core/qcoroiodevice.cpp
@@ -111,7 +111,8 @@ QCoro::Task<bool> QCoroIODevice::waitForReadyRead(std::chrono::milliseconds time
     }
 
     const auto result = co_await waitForReadyReadImpl(timeout);
-    co_return result.has_value();
+    // The result is false when the device won't become readable, e.g. because it is closing.
+    co_return result.value_or(false);
 }
 
 QCoro::Task<std::optional<qint64>> QCoroIODevice::waitForBytesWritten(int timeout_msecs) {
@@ -127,7 +128,8 @@ QCoro::Task<std::optional<qint64>> QCoroIODevice::waitForBytesWritten(std::chron
     }
 
     const auto result = co_await waitForBytesWrittenImpl(timeout);
-    co_return result;
+    // Zero is reported when the device won't write any more data, e.g. because it is closing.
+    co_return result.value_or(0) > 0 ? result : std::nullopt;
 }
 
 QCoro::Task<std::optional<bool>> QCoroIODevice::waitForReadyReadImpl(std::chrono::milliseconds timeout) {
-- 
2.43.0


From 9aa71373d457436638116603add727394a46e667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:59 +0000
Subject: [PATCH 11/42] fix: complete write() when the device has nothing left
 to write

On a device without a write buffer, or when the data were flushed already, write() kept polling
forever without ever suspending; it also reported more than it has written when data written earlier
were still buffered.
---
 qcoro/core/qcoroiodevice.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/qcoro/core/qcoroiodevice.cpp b/qcoro/core/qcoroiodevice.cpp
index 54def8d..39d7c21 100644
--- a/qcoro/core/qcoroiodevice.cpp
+++ b/qcoro/core/qcoroiodevice.cpp
@@ -10,6 +10,8 @@
 #include <QIODevice>
 #include <QTimer>
 
+#include <algorithm>
+
 using namespace QCoro::detail;
 
 QCoroIODevice::OperationBase::OperationBase(QIODevice *device)
@@ -92,7 +94,13 @@ QCoro::Task<qint64> QCoroIODevice::write(const QByteArray &buffer) {
             // written, so we report only what we know for sure was written.
             break;
         }
-        bytesConfirmed += *flushed;
+        if (*flushed == 0) {
+            // Nothing is waiting to be written: the device is not buffered or has written everything.
+            bytesConfirmed = bytesWritten;
+            break;
+        }
+        // The device may report data that were in its buffer before ours, too.
+        bytesConfirmed = std::min(bytesConfirmed + *flushed, bytesWritten);
     }
 
     co_return bytesConfirmed;
-- 
2.43.0


From a3afe028860ebe807847ae936aae550c21924892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:59 +0000
Subject: [PATCH 12/42] fix: do not use the wrapper of write() after it is gone

qCoro(device).write() is a coroutine member of a temporary: when the task outlives the expression that
created it, every later wait used a destroyed wrapper.
---
 qcoro/core/qcoroiodevice.cpp          | 8 +++++++-
 qcoro/core/qcoroiodevice.h            | 4 ++++
 qcoro/network/qcoroabstractsocket.cpp | 4 ++++
 qcoro/network/qcoroabstractsocket.h   | 1 +
 qcoro/network/qcorolocalsocket.cpp    | 4 ++++
 qcoro/network/qcorolocalsocket.h      | 1 +
 qcoro/network/qcoronetworkreply.cpp   | 4 ++++
 qcoro/network/qcoronetworkreply.h     | 1 +
 8 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/qcoro/core/qcoroiodevice.cpp b/qcoro/core/qcoroiodevice.cpp
index 39d7c21..3efdd85 100644
--- a/qcoro/core/qcoroiodevice.cpp
+++ b/qcoro/core/qcoroiodevice.cpp
@@ -57,6 +57,10 @@ QCoroIODevice::QCoroIODevice(QIODevice *device)
     : mDevice{device}
 {}
 
+std::shared_ptr<QCoroIODevice> QCoroIODevice::clone() const {
+    return std::make_shared<QCoroIODevice>(*this);
+}
+
 QCoro::Task<QByteArray> QCoroIODevice::readAll(std::chrono::milliseconds timeout) {
     const auto device = mDevice;
     if (!co_await waitForReadyRead(timeout) || !device) {
@@ -85,10 +89,12 @@ QCoro::Task<QByteArray> QCoroIODevice::readLine(qint64 maxSize, std::chrono::mil
 }
 
 QCoro::Task<qint64> QCoroIODevice::write(const QByteArray &buffer) {
+    // The wrapper can be a temporary that is gone once the coroutine has been suspended.
+    const auto self = clone();
     const auto bytesWritten = mDevice->write(buffer);
     qint64 bytesConfirmed = 0;
     while (bytesConfirmed < bytesWritten) {
-        const auto flushed = co_await waitForBytesWritten(-1);
+        const auto flushed = co_await self->waitForBytesWritten(-1);
         if (!flushed.has_value()) {
             // There was an intermediate error and we don't know how much was actually
             // written, so we report only what we know for sure was written.
diff --git a/qcoro/core/qcoroiodevice.h b/qcoro/core/qcoroiodevice.h
index c382b48..4a8ed4b 100644
--- a/qcoro/core/qcoroiodevice.h
+++ b/qcoro/core/qcoroiodevice.h
@@ -12,6 +12,8 @@
 
 #include <QPointer>
 
+#include <memory>
+
 class QIODevice;
 
 /*! \cond internal */
@@ -196,6 +198,8 @@ public:
 protected:
     virtual Task<std::optional<bool>> waitForReadyReadImpl(std::chrono::milliseconds timeout);
     virtual Task<std::optional<qint64>> waitForBytesWrittenImpl(std::chrono::milliseconds timeout);
+    //! Copy of the wrapper, for operations that outlive it.
+    virtual std::shared_ptr<QCoroIODevice> clone() const;
 
     QPointer<QIODevice> mDevice = {};
 };
diff --git a/qcoro/network/qcoroabstractsocket.cpp b/qcoro/network/qcoroabstractsocket.cpp
index 56fde6b..270d867 100644
--- a/qcoro/network/qcoroabstractsocket.cpp
+++ b/qcoro/network/qcoroabstractsocket.cpp
@@ -45,6 +45,10 @@ private:
 QCoroAbstractSocket::QCoroAbstractSocket(QAbstractSocket *socket)
     : QCoroIODevice(socket) {}
 
+std::shared_ptr<QCoroIODevice> QCoroAbstractSocket::clone() const {
+    return std::make_shared<QCoroAbstractSocket>(*this);
+}
+
 QCoro::Task<std::optional<bool>> QCoroAbstractSocket::waitForReadyReadImpl(std::chrono::milliseconds timeout) {
     const auto *socket = static_cast<QAbstractSocket *>(mDevice.data());
     if (socket->state() != QAbstractSocket::ConnectedState) {
diff --git a/qcoro/network/qcoroabstractsocket.h b/qcoro/network/qcoroabstractsocket.h
index 5a367f6..0d4d911 100644
--- a/qcoro/network/qcoroabstractsocket.h
+++ b/qcoro/network/qcoroabstractsocket.h
@@ -107,6 +107,7 @@ public:
 private:
     Task<std::optional<bool>> waitForReadyReadImpl(std::chrono::milliseconds timeout) override;
     Task<std::optional<qint64>> waitForBytesWrittenImpl(std::chrono::milliseconds timeout) override;
+    std::shared_ptr<QCoroIODevice> clone() const override;
 };
 
 } // namespace QCoro::detail
diff --git a/qcoro/network/qcorolocalsocket.cpp b/qcoro/network/qcorolocalsocket.cpp
index 5cc97e5..b1d02e7 100644
--- a/qcoro/network/qcorolocalsocket.cpp
+++ b/qcoro/network/qcorolocalsocket.cpp
@@ -75,6 +75,10 @@ QCoroLocalSocket::QCoroLocalSocket(QLocalSocket *socket)
     : QCoroIODevice(socket)
 {}
 
+std::shared_ptr<QCoroIODevice> QCoroLocalSocket::clone() const {
+    return std::make_shared<QCoroLocalSocket>(*this);
+}
+
 QCoro::Task<std::optional<bool>> QCoroLocalSocket::waitForReadyReadImpl(std::chrono::milliseconds timeout) {
     const auto *socket = static_cast<QLocalSocket *>(mDevice.data());
     if (socket->state() != QLocalSocket::ConnectedState) {
diff --git a/qcoro/network/qcorolocalsocket.h b/qcoro/network/qcorolocalsocket.h
index 16e7166..f17f8fb 100644
--- a/qcoro/network/qcorolocalsocket.h
+++ b/qcoro/network/qcorolocalsocket.h
@@ -108,6 +108,7 @@ public:
 private:
     Task<std::optional<bool>> waitForReadyReadImpl(std::chrono::milliseconds timeout) override;
     Task<std::optional<qint64>> waitForBytesWrittenImpl(std::chrono::milliseconds timeout) override;
+    std::shared_ptr<QCoroIODevice> clone() const override;
 };
 
 } // namespace QCoro::detail
diff --git a/qcoro/network/qcoronetworkreply.cpp b/qcoro/network/qcoronetworkreply.cpp
index ea34423..eff24df 100644
--- a/qcoro/network/qcoronetworkreply.cpp
+++ b/qcoro/network/qcoronetworkreply.cpp
@@ -80,6 +80,10 @@ QNetworkReply *QCoroNetworkReply::WaitForFinishedOperation::await_resume() const
     return d->reply;
 }
 
+std::shared_ptr<QCoroIODevice> QCoroNetworkReply::clone() const {
+    return std::make_shared<QCoroNetworkReply>(*this);
+}
+
 QCoro::Task<std::optional<bool>> QCoroNetworkReply::waitForReadyReadImpl(std::chrono::milliseconds timeout) {
     const auto *reply = static_cast<QNetworkReply *>(mDevice.data());
     if (reply->isFinished()) {
diff --git a/qcoro/network/qcoronetworkreply.h b/qcoro/network/qcoronetworkreply.h
index 6d45366..0408036 100644
--- a/qcoro/network/qcoronetworkreply.h
+++ b/qcoro/network/qcoronetworkreply.h
@@ -54,6 +54,7 @@ public:
 private:
     Task<std::optional<bool>> waitForReadyReadImpl(std::chrono::milliseconds timeout) override;
     Task<std::optional<qint64>> waitForBytesWrittenImpl(std::chrono::milliseconds timeout) override;
+    std::shared_ptr<QCoroIODevice> clone() const override;
 };
 
 } // namespace QCoro::detail
-- 
2.43.0


From 08c39955d7bef31988e166a896d86a0c96e1e968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:12 +0000
Subject: [PATCH 13/42] fix: a process that fails to start ends the wait for it

QProcess emits neither started() nor finished() when it fails to start, so waitForStarted(), start() and
waitForFinished() only ended with the timeout, and with an infinite timeout never, although they are
documented to return false when an error occurs.
---
 qcoro/core/qcoroprocess.cpp | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/qcoro/core/qcoroprocess.cpp b/qcoro/core/qcoroprocess.cpp
index 6b0a03e..2f7b2de 100644
--- a/qcoro/core/qcoroprocess.cpp
+++ b/qcoro/core/qcoroprocess.cpp
@@ -13,6 +13,28 @@
 
 using namespace QCoro::detail;
 
+namespace {
+
+// Reports when the process emits the signal, or that it never will since the process failed to start.
+class ProcessSignalHelper : public QObject {
+    Q_OBJECT
+public:
+    template<typename Signal>
+    ProcessSignalHelper(const QProcess *process, Signal signal) {
+        connect(process, signal, this, [this]() { Q_EMIT ready(true); });
+        connect(process, &QProcess::errorOccurred, this, [this](QProcess::ProcessError error) {
+            if (error == QProcess::FailedToStart) {
+                Q_EMIT ready(false);
+            }
+        });
+    }
+
+Q_SIGNALS:
+    void ready(bool result);
+};
+
+} // namespace
+
 QCoroProcess::QCoroProcess(QProcess *process)
     : QCoroIODevice(process)
 {}
@@ -24,8 +46,9 @@ QCoro::Task<bool> QCoroProcess::waitForStarted(int timeout_msecs) {
 QCoro::Task<bool> QCoroProcess::waitForStarted(std::chrono::milliseconds timeout) {
     const auto *process = qobject_cast<QProcess *>(mDevice.data());
     if (process->state() == QProcess::Starting) {
-        const auto started = co_await qCoro(process, &QProcess::started, timeout);
-        co_return started.has_value();
+        ProcessSignalHelper helper(process, &QProcess::started);
+        const auto started = co_await qCoro(&helper, &ProcessSignalHelper::ready, timeout);
+        co_return started.value_or(false);
     }
 
     co_return process->state() == QProcess::Running;
@@ -41,8 +64,9 @@ QCoro::Task<bool> QCoroProcess::waitForFinished(std::chrono::milliseconds timeou
         co_return false;
     }
 
-    const auto finished = co_await qCoro(process, qOverload<int, QProcess::ExitStatus>(&QProcess::finished), timeout);
-    co_return finished.has_value();
+    ProcessSignalHelper helper(process, qOverload<int, QProcess::ExitStatus>(&QProcess::finished));
+    const auto finished = co_await qCoro(&helper, &ProcessSignalHelper::ready, timeout);
+    co_return finished.value_or(false);
 }
 
 QCoro::Task<bool> QCoroProcess::start(QIODevice::OpenMode mode, std::chrono::milliseconds timeout) {
@@ -56,4 +80,6 @@ QCoro::Task<bool> QCoroProcess::start(const QString &program, const QStringList
     return waitForStarted(timeout);
 }
 
+#include "qcoroprocess.moc"
+
 #endif // QT_CONFIG(process)
-- 
2.43.0


From 188f899844c1472f21319bc0d101c1e97f3738f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:21 +0000
Subject: [PATCH 14/42] fix: a thread may start or finish while its wait is
 being set up

The wait checked the state of the thread first and connected to its signal afterwards. When the thread
got there in between, the wait missed the signal and never ended.
---
 qcoro/core/qcorothread.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/qcoro/core/qcorothread.cpp b/qcoro/core/qcorothread.cpp
index b1c73ee..ac8ba66 100644
--- a/qcoro/core/qcorothread.cpp
+++ b/qcoro/core/qcorothread.cpp
@@ -51,6 +51,20 @@ public:
     std::unique_ptr<ContextHelper> mContext;
 };
 
+// Receives the signal of a thread in the thread of the awaiting coroutine. The thread may change its state
+// at any time, so the helper must be connected before the state gets checked.
+class ThreadSignalHelper : public QObject {
+    Q_OBJECT
+public:
+    template<typename Signal>
+    ThreadSignalHelper(QThread *thread, Signal signal) {
+        connect(thread, signal, this, [this]() { Q_EMIT ready(); }, Qt::QueuedConnection);
+    }
+
+Q_SIGNALS:
+    void ready();
+};
+
 } // namespace QCoro::detail
 
 ThreadContext::ThreadContext(QThread *thread)
@@ -88,6 +102,7 @@ QCoroThread::QCoroThread(QThread *thread)
 {}
 
 QCoro::Task<bool> QCoroThread::waitForStarted(std::chrono::milliseconds timeout) {
+    ThreadSignalHelper helper(mThread.data(), &QThread::started);
     if (mThread->isRunning()) {
         co_return true;
     }
@@ -95,19 +110,17 @@ QCoro::Task<bool> QCoroThread::waitForStarted(std::chrono::milliseconds timeout)
         co_return false;
     }
 
-    const auto result = co_await qCoro(mThread.data(), &QThread::started, timeout);
+    const auto result = co_await qCoro(&helper, &ThreadSignalHelper::ready, timeout);
     co_return result.has_value();
 }
 
 QCoro::Task<bool> QCoroThread::waitForFinished(std::chrono::milliseconds timeout) {
-    if (mThread->isFinished()) {
-        co_return true;
-    }
+    ThreadSignalHelper helper(mThread.data(), &QThread::finished);
     if (!mThread->isRunning()) {
-        co_return false;
+        co_return mThread->isFinished();
     }
 
-    const auto result = co_await qCoro(mThread.data(), &QThread::finished, timeout);
+    const auto result = co_await qCoro(&helper, &ThreadSignalHelper::ready, timeout);
     co_return result.has_value();
 }
 
-- 
2.43.0


From dc91dd9f87288cc557fc019299aec059c78d74af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:59 +0000
Subject: [PATCH 15/42] fix: a TCP socket that fails to connect ends the waits
 for it

A failed connection emits neither connected() nor disconnected(), so waitForConnected(), connectToHost()
and waitForDisconnected() only ended with the timeout, and with an infinite timeout never.
---
 qcoro/network/qcoroabstractsocket.cpp | 45 +++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/qcoro/network/qcoroabstractsocket.cpp b/qcoro/network/qcoroabstractsocket.cpp
index 270d867..ca3a5da 100644
--- a/qcoro/network/qcoroabstractsocket.cpp
+++ b/qcoro/network/qcoroabstractsocket.cpp
@@ -40,6 +40,29 @@ private:
     QMetaObject::Connection mStateChanged;
 };
 
+// Reports that the socket got connected or disconnected, or that it failed to connect.
+class AbstractSocketStateHelper : public QObject {
+    Q_OBJECT
+public:
+    AbstractSocketStateHelper(const QAbstractSocket *socket, QAbstractSocket::SocketState expectedState) {
+        if (expectedState == QAbstractSocket::ConnectedState) {
+            connect(socket, &QAbstractSocket::connected, this, [this]() { Q_EMIT ready(true); });
+        }
+        connect(socket, &QAbstractSocket::stateChanged, this, [this, expectedState](QAbstractSocket::SocketState state) {
+            if (state == QAbstractSocket::UnconnectedState) {
+                Q_EMIT ready(expectedState == QAbstractSocket::UnconnectedState);
+            }
+        });
+    }
+
+Q_SIGNALS:
+    void ready(bool result);
+};
+
+QCoro::Task<bool> connectionFailed() {
+    co_return false;
+}
+
 } // namespace
 
 QCoroAbstractSocket::QCoroAbstractSocket(QAbstractSocket *socket)
@@ -79,8 +102,9 @@ QCoro::Task<bool> QCoroAbstractSocket::waitForConnected(std::chrono::millisecond
         co_return true;
     }
 
-    const auto result = co_await qCoro(socket, &QAbstractSocket::connected, timeout);
-    co_return result.has_value();
+    AbstractSocketStateHelper helper(socket, QAbstractSocket::ConnectedState);
+    const auto result = co_await qCoro(&helper, &AbstractSocketStateHelper::ready, timeout);
+    co_return result.value_or(false);
 }
 
 QCoro::Task<bool> QCoroAbstractSocket::waitForDisconnected(int timeout_msecs) {
@@ -93,20 +117,29 @@ QCoro::Task<bool> QCoroAbstractSocket::waitForDisconnected(std::chrono::millisec
         co_return false;
     }
 
-    const auto result = co_await qCoro(socket, &QAbstractSocket::disconnected, timeout);
-    co_return result.has_value();
+    AbstractSocketStateHelper helper(socket, QAbstractSocket::UnconnectedState);
+    const auto result = co_await qCoro(&helper, &AbstractSocketStateHelper::ready, timeout);
+    co_return result.value_or(false);
 }
 
 QCoro::Task<bool> QCoroAbstractSocket::connectToHost(const QString &hostName, quint16 port,
                                                      QIODevice::OpenMode openMode, QAbstractSocket::NetworkLayerProtocol protocol,
                                                      std::chrono::milliseconds timeout) {
-    static_cast<QAbstractSocket *>(mDevice.data())->connectToHost(hostName, port, openMode, protocol);
+    auto *socket = static_cast<QAbstractSocket *>(mDevice.data());
+    socket->connectToHost(hostName, port, openMode, protocol);
+    if (socket->state() == QAbstractSocket::UnconnectedState) {
+        return connectionFailed();
+    }
     return waitForConnected(timeout);
 }
 
 QCoro::Task<bool> QCoroAbstractSocket::connectToHost(const QHostAddress &address, quint16 port,
                                                      QIODevice::OpenMode openMode, std::chrono::milliseconds timeout) {
-    static_cast<QAbstractSocket *>(mDevice.data())->connectToHost(address, port, openMode);
+    auto *socket = static_cast<QAbstractSocket *>(mDevice.data());
+    socket->connectToHost(address, port, openMode);
+    if (socket->state() == QAbstractSocket::UnconnectedState) {
+        return connectionFailed();
+    }
     return waitForConnected(timeout);
 }
 
-- 
2.43.0


From fef3104e65414e61cd8ce7038040843ae17cdcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:59 +0000
Subject: [PATCH 16/42] fix: a local socket that fails to connect ends the
 waits for it

connectToServer() can fail before it returns, and a failed connection never emits disconnected(), so
connectToServer() and waitForDisconnected() only ended with the timeout, or never.
---
 qcoro/network/qcorolocalsocket.cpp | 35 +++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/qcoro/network/qcorolocalsocket.cpp b/qcoro/network/qcorolocalsocket.cpp
index b1d02e7..bb00a79 100644
--- a/qcoro/network/qcorolocalsocket.cpp
+++ b/qcoro/network/qcorolocalsocket.cpp
@@ -69,6 +69,25 @@ private:
     QMetaObject::Connection mStateChange;
 };
 
+class SocketDisconnectedHelper : public QObject {
+    Q_OBJECT
+public:
+    explicit SocketDisconnectedHelper(const QLocalSocket *socket) {
+        connect(socket, &QLocalSocket::stateChanged, this, [this](auto state) {
+            if (state == QLocalSocket::UnconnectedState) {
+                Q_EMIT ready();
+            }
+        });
+    }
+
+Q_SIGNALS:
+    void ready();
+};
+
+QCoro::Task<bool> connectionFailed() {
+    co_return false;
+}
+
 } // namespace
 
 QCoroLocalSocket::QCoroLocalSocket(QLocalSocket *socket)
@@ -120,19 +139,29 @@ QCoro::Task<bool> QCoroLocalSocket::waitForDisconnected(std::chrono::millisecond
     if (socket->state() == QLocalSocket::UnconnectedState) {
         co_return false;
     }
-    const auto result = co_await qCoro(socket, &QLocalSocket::disconnected, timeout);
+    // A socket that fails to connect gets unconnected without emitting disconnected().
+    SocketDisconnectedHelper helper(socket);
+    const auto result = co_await qCoro(&helper, &SocketDisconnectedHelper::ready, timeout);
     co_return result.has_value();
 }
 
 QCoro::Task<bool> QCoroLocalSocket::connectToServer(QIODevice::OpenMode openMode,
                                                     std::chrono::milliseconds timeout) {
-    static_cast<QLocalSocket *>(mDevice.data())->connectToServer(openMode);
+    auto *socket = static_cast<QLocalSocket *>(mDevice.data());
+    socket->connectToServer(openMode);
+    if (socket->state() == QLocalSocket::UnconnectedState) {
+        return connectionFailed();
+    }
     return waitForConnected(timeout);
 }
 
 QCoro::Task<bool> QCoroLocalSocket::connectToServer(const QString &name, QIODevice::OpenMode openMode,
                                                     std::chrono::milliseconds timeout) {
-    static_cast<QLocalSocket *>(mDevice.data())->connectToServer(name, openMode);
+    auto *socket = static_cast<QLocalSocket *>(mDevice.data());
+    socket->connectToServer(name, openMode);
+    if (socket->state() == QLocalSocket::UnconnectedState) {
+        return connectionFailed();
+    }
     return waitForConnected(timeout);
 }
 
-- 
2.43.0


From 3f6a3aa5d967bfe13122d50a28332ff81f348ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:59 +0000
Subject: [PATCH 17/42] fix: do not use a TCP server that was destroyed while
 being awaited

The server can be destroyed between the new connection and the resumption of the awaiting coroutine.
---
 qcoro/network/qcorotcpserver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qcoro/network/qcorotcpserver.cpp b/qcoro/network/qcorotcpserver.cpp
index b23e297..d575834 100644
--- a/qcoro/network/qcorotcpserver.cpp
+++ b/qcoro/network/qcorotcpserver.cpp
@@ -44,7 +44,7 @@ QCoro::Task<QTcpSocket *> QCoroTcpServer::waitForNewConnection(std::chrono::mill
     }
 
     const auto result = co_await qCoro(server.data(), &QTcpServer::newConnection, timeout);
-    if (result.has_value()) {
+    if (result.has_value() && server) {
         co_return server->nextPendingConnection();
     }
     co_return nullptr;
-- 
2.43.0


From b965c0eb0ab6d11c1dd4962b8c5036c6da25ba97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:48 +0000
Subject: [PATCH 18/42] fix: opening a WebSocket ends when it fails at once or
 is closed meanwhile

---
 qcoro/websockets/qcorowebsocket.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/qcoro/websockets/qcorowebsocket.cpp b/qcoro/websockets/qcorowebsocket.cpp
index c686d14..677757d 100644
--- a/qcoro/websockets/qcorowebsocket.cpp
+++ b/qcoro/websockets/qcorowebsocket.cpp
@@ -30,6 +30,9 @@ public:
         : mState(connect(socket, &QWebSocket::stateChanged, this, [this, desiredState](auto newState) {
             if (newState == desiredState) {
                 emitReady(true);
+            } else if (newState == QAbstractSocket::UnconnectedState) {
+                // closed or dropped before it got there
+                emitReady(false);
             }
         }))
         , mError(connect(socket, qOverload<QAbstractSocket::SocketError>(
@@ -42,8 +45,14 @@ public:
             qWarning() << "QWebSocket failed to connect to a websocket server: " << error;
             emitReady(false);
         }))
+        , mDestroyed(connect(socket, &QObject::destroyed, this, [this]() {
+            emitReady(false);
+        }))
     {}
 
+    //! The result, once it is known. It may become known before anybody waits for ready().
+    std::optional<bool> result() const { return mResult; }
+
 Q_SIGNALS:
     void ready(bool result);
 
@@ -51,11 +60,15 @@ private:
     void emitReady(bool result) {
         disconnect(mState);
         disconnect(mError);
+        disconnect(mDestroyed);
+        mResult = result;
         Q_EMIT ready(result);
     }
 
     QMetaObject::Connection mState;
     QMetaObject::Connection mError;
+    QMetaObject::Connection mDestroyed;
+    std::optional<bool> mResult;
 };
 
 template<typename>
@@ -153,6 +166,10 @@ QCoro::Task<bool> QCoroWebSocket::open(const QUrl &url, std::chrono::millisecond
 
     WebSocketStateWatcher watcher(mWebSocket, QAbstractSocket::ConnectedState);
     mWebSocket->open(url);
+    if (watcher.result().has_value()) {
+        // failed immediately, e.g. because the URL is not valid
+        co_return *watcher.result();
+    }
     const auto result = co_await qCoro(&watcher, &WebSocketStateWatcher::ready, timeout);
     co_return result.value_or(false);
 }
@@ -165,6 +182,10 @@ QCoro::Task<bool> QCoroWebSocket::open(const QNetworkRequest &request, std::chro
 
     WebSocketStateWatcher watcher(mWebSocket, QAbstractSocket::ConnectedState);
     mWebSocket->open(request);
+    if (watcher.result().has_value()) {
+        // failed immediately, e.g. because the URL is not valid
+        co_return *watcher.result();
+    }
     const auto result = co_await qCoro(&watcher, &WebSocketStateWatcher::ready, timeout);
     co_return result.value_or(false);
 }
-- 
2.43.0


From 632f2a537705d3c687cd4be9c65cb1a47eeca08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:48 +0000
Subject: [PATCH 19/42] fix: waiting for a pong or for WebSocket messages ends
 when the socket is destroyed

---
 qcoro/websockets/qcorowebsocket.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qcoro/websockets/qcorowebsocket.cpp b/qcoro/websockets/qcorowebsocket.cpp
index 677757d..f669304 100644
--- a/qcoro/websockets/qcorowebsocket.cpp
+++ b/qcoro/websockets/qcorowebsocket.cpp
@@ -119,6 +119,9 @@ public:
                 Q_EMIT this->ready(std::optional<signal_args_t<Signal>>{});
             }
         });
+        connect(socket, &QObject::destroyed, this, [this]() {
+            Q_EMIT this->ready(std::optional<signal_args_t<Signal>>{});
+        });
     }
 
 Q_SIGNALS:
-- 
2.43.0


From cb71da1ddd8010ee212f2b94e185dc0f7d656045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:48 +0000
Subject: [PATCH 20/42] fix: WebSocket generators buffer from the start and end
 on an unconnected socket

---
 qcoro/websockets/qcorowebsocket.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/qcoro/websockets/qcorowebsocket.cpp b/qcoro/websockets/qcorowebsocket.cpp
index f669304..68ef0b2 100644
--- a/qcoro/websockets/qcorowebsocket.cpp
+++ b/qcoro/websockets/qcorowebsocket.cpp
@@ -9,6 +9,8 @@
 #include <QWebSocket>
 #include <QDebug>
 
+#include <memory>
+
 using namespace QCoro::detail;
 
 using TupleQInt64QByteArray = std::tuple<qint64, QByteArray>;
@@ -132,13 +134,17 @@ Q_SIGNALS:
     void ready(std::optional<std::tuple<QString>>); // text messages
 };
 
-template<typename Signal>
-auto watcherGenerator(QWebSocket *ws, Signal signal, std::chrono::milliseconds timeout) ->
+template<typename Signal, typename Watcher, typename Listener>
+auto watcherGenerator(Watcher watcherArg, Listener listenerArg, bool connected) ->
     QCoro::AsyncGenerator<unwrapped_signal_args_t<signal_args_t<Signal>>>
 {
-    WebSocketSignalWatcher watcher(ws, signal);
     using signalType = std::optional<signal_args_t<Signal>>;
-    auto signalListener = qCoroSignalListener(&watcher, qOverload<signalType>(&WebSocketSignalWatcher::ready), timeout);
+    // Unlike the arguments, these do not outlive the last message.
+    const auto watcher = std::move(watcherArg);
+    auto signalListener = std::move(listenerArg);
+    if (!connected) {
+        co_return;
+    }
     auto it = co_await signalListener.begin();
     while (it != signalListener.end()) {
         if (!(*it).has_value()) {
@@ -154,6 +160,16 @@ auto watcherGenerator(QWebSocket *ws, Signal signal, std::chrono::milliseconds t
     }
 }
 
+template<typename Signal>
+auto watcherGenerator(QWebSocket *ws, Signal signal, std::chrono::milliseconds timeout) ->
+    QCoro::AsyncGenerator<unwrapped_signal_args_t<signal_args_t<Signal>>>
+{
+    // This is not a coroutine: it starts to listen right away, not only once somebody asks for the first message.
+    using signalType = std::optional<signal_args_t<Signal>>;
+    auto watcher = std::make_unique<WebSocketSignalWatcher>(ws, signal);
+    auto signalListener = qCoroSignalListener(watcher.get(), qOverload<signalType>(&WebSocketSignalWatcher::ready), timeout);
+    return watcherGenerator<Signal>(std::move(watcher), std::move(signalListener), ws->state() != QAbstractSocket::UnconnectedState);
+}
 
 } // namespace
 
-- 
2.43.0


From 81097d9dd2764f1cb29690341621dd249bdf8be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:48 +0000
Subject: [PATCH 21/42] fix: a finished wait for a WebSocket connection does
 not take later connections

---
 qcoro/websockets/qcorowebsocketserver.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/qcoro/websockets/qcorowebsocketserver.cpp b/qcoro/websockets/qcorowebsocketserver.cpp
index c2c6056..95469d5 100644
--- a/qcoro/websockets/qcorowebsocketserver.cpp
+++ b/qcoro/websockets/qcorowebsocketserver.cpp
@@ -5,6 +5,7 @@
 #include "qcorowebsocketserver.h"
 #include "qcorosignal.h"
 
+#include <QPointer>
 #include <QWebSocket>
 #include <QWebSocketServer>
 
@@ -16,16 +17,13 @@ class QCoroWebSocketServerSignalListener : public QObject {
     Q_OBJECT
 public:
     QCoroWebSocketServerSignalListener(QWebSocketServer *server) {
-        connect(server, &QWebSocketServer::closed, this, [this]() {
-            Q_EMIT ready(nullptr);
-        });
-        connect(server, &QWebSocketServer::newConnection, [this, server]() {
-            Q_EMIT ready(server->nextPendingConnection());
-        });
+        connect(server, &QWebSocketServer::closed, this, &QCoroWebSocketServerSignalListener::ready);
+        connect(server, &QWebSocketServer::newConnection, this, &QCoroWebSocketServerSignalListener::ready);
+        connect(server, &QObject::destroyed, this, &QCoroWebSocketServerSignalListener::ready);
     }
 
 Q_SIGNALS:
-    void ready(QWebSocket *socket);
+    void ready();
 };
 
 } // namespace
@@ -36,7 +34,7 @@ QCoroWebSocketServer::QCoroWebSocketServer(QWebSocketServer *server)
 
 QCoro::Task<QWebSocket *> QCoroWebSocketServer::nextPendingConnection(std::chrono::milliseconds timeout)
 {
-    auto * const server = mServer;
+    const QPointer<QWebSocketServer> server = mServer;
     if (!server->isListening()) {
         co_return nullptr;
     }
@@ -47,7 +45,11 @@ QCoro::Task<QWebSocket *> QCoroWebSocketServer::nextPendingConnection(std::chron
 
     QCoroWebSocketServerSignalListener listener(server);
     const auto result = co_await qCoro(&listener, &QCoroWebSocketServerSignalListener::ready, timeout);
-    co_return result.value_or(nullptr);
+    if (!result.has_value() || !server) {
+        co_return nullptr;
+    }
+    // Take the connection only now, it is not lost when the wait times out (there is none if the server was closed)
+    co_return server->nextPendingConnection();
 }
 
 #include "qcorowebsocketserver.moc"
-- 
2.43.0


From 77772e8a9f442df9e5960481a1f35a4f6853adbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:48 +0000
Subject: [PATCH 22/42] fix: waiting for a finished D-Bus call does not suspend

---
 qcoro/dbus/qcorodbuspendingcall.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qcoro/dbus/qcorodbuspendingcall.cpp b/qcoro/dbus/qcorodbuspendingcall.cpp
index af7098e..1f28a04 100644
--- a/qcoro/dbus/qcorodbuspendingcall.cpp
+++ b/qcoro/dbus/qcorodbuspendingcall.cpp
@@ -36,6 +36,10 @@ QCoroDBusPendingCall::QCoroDBusPendingCall(const QDBusPendingCall &call)
 {}
 
 QCoro::Task<QDBusMessage> QCoroDBusPendingCall::waitForFinished() {
+    if (mCall.isFinished()) {
+        co_return mCall.reply();
+    }
+
     QDBusPendingCallWatcher watcher{mCall};
     co_await qCoro(&watcher, &QDBusPendingCallWatcher::finished);
     co_return watcher.reply();
-- 
2.43.0


From 23b7e6654411873bc2775882dbb34a11413892ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:58 +0000
Subject: [PATCH 23/42] fix: do not touch an image response that was destroyed
 before its image was loaded

---
 qcoro/quick/qcoroimageprovider.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/qcoro/quick/qcoroimageprovider.cpp b/qcoro/quick/qcoroimageprovider.cpp
index 72361c7..92a74ff 100644
--- a/qcoro/quick/qcoroimageprovider.cpp
+++ b/qcoro/quick/qcoroimageprovider.cpp
@@ -4,6 +4,8 @@
 
 #include "qcoroimageprovider.h"
 
+#include <QPointer>
+
 namespace QCoro {
 
 // Internal implementation of the QQuickImageResponse interface
@@ -25,8 +27,11 @@ QQuickImageResponse *ImageProvider::requestImageResponse(const QString &id, cons
 
     auto *response = new QCoroImageResponse();
 
-    task.then([response](QImage &&image) {
-        response->reportFinished(std::move(image));
+    // The response may be gone (e.g. when the request was cancelled) by the time the image is loaded.
+    task.then([response = QPointer<QCoroImageResponse>(response)](QImage &&image) {
+        if (response) {
+            response->reportFinished(std::move(image));
+        }
     });
 
     return response;
-- 
2.43.0


From 70d58b59d13efc5fc41c2cb10f2849729bd146cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:58 +0000
Subject: [PATCH 24/42] fix: finish an image response when loading its image
 fails

---
 qcoro/quick/qcoroimageprovider.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/qcoro/quick/qcoroimageprovider.cpp b/qcoro/quick/qcoroimageprovider.cpp
index 92a74ff..b868051 100644
--- a/qcoro/quick/qcoroimageprovider.cpp
+++ b/qcoro/quick/qcoroimageprovider.cpp
@@ -13,10 +13,13 @@ class QCoroImageResponse : public QQuickImageResponse {
 
 public:
     QQuickTextureFactory *textureFactory() const override;
+    QString errorString() const override;
     void reportFinished(QImage &&image);
+    void reportError(const QString &error);
 
 private:
     QImage m_image;
+    QString m_error;
 };
 
 
@@ -32,6 +35,10 @@ QQuickImageResponse *ImageProvider::requestImageResponse(const QString &id, cons
         if (response) {
             response->reportFinished(std::move(image));
         }
+    }, [response = QPointer<QCoroImageResponse>(response)](const std::exception &e) {
+        if (response) {
+            response->reportError(QString::fromUtf8(e.what()));
+        }
     });
 
     return response;
@@ -41,9 +48,18 @@ QQuickTextureFactory *QCoroImageResponse::textureFactory() const {
     return QQuickTextureFactory::textureFactoryForImage(m_image);
 }
 
+QString QCoroImageResponse::errorString() const {
+    return m_error;
+}
+
 void QCoroImageResponse::reportFinished(QImage &&image) {
     m_image = image;
     Q_EMIT finished();
 }
 
+void QCoroImageResponse::reportError(const QString &error) {
+    m_error = error;
+    Q_EMIT finished();
+}
+
 }
-- 
2.43.0


From 2e271f103eae901efd6e813ba3d3175b6f1a7e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:04 +0000
Subject: [PATCH 25/42] fix: copies of a QmlTask share the task instead of
 reaching Q_UNREACHABLE

---
 qcoro/qml/qcoroqmltask.cpp | 5 -----
 qcoro/qml/qcoroqmltask.h   | 3 ++-
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/qcoro/qml/qcoroqmltask.cpp b/qcoro/qml/qcoroqmltask.cpp
index 8523aeb..9627705 100644
--- a/qcoro/qml/qcoroqmltask.cpp
+++ b/qcoro/qml/qcoroqmltask.cpp
@@ -22,11 +22,6 @@ namespace QCoro {
 
 struct QmlTaskPrivate : public QSharedData {
     std::optional<QCoro::Task<QVariant>> task;
-
-    QmlTaskPrivate() = default;
-    QmlTaskPrivate(const QmlTaskPrivate &) : QSharedData() {
-        Q_UNREACHABLE();
-    };
 };
 
 inline QJSEngine *getEngineForValue(const QJSValue &val) {
diff --git a/qcoro/qml/qcoroqmltask.h b/qcoro/qml/qcoroqmltask.h
index 06f8c53..83412c8 100644
--- a/qcoro/qml/qcoroqmltask.h
+++ b/qcoro/qml/qcoroqmltask.h
@@ -7,6 +7,7 @@
 #include <QCoro/QCoroTask>
 #include <QJSValue>
 #include <QJSEngine>
+#include <QSharedData>
 
 #include "qcoroqml_export.h"
 
@@ -93,7 +94,7 @@ public:
     Q_INVOKABLE QCoro::QmlTaskListener *await(const QVariant &intermediateValue = {});
 
 private:
-    QSharedDataPointer<QmlTaskPrivate> d;
+    QExplicitlySharedDataPointer<QmlTaskPrivate> d;
 };
 
 class QmlTaskListener : public QObject {
-- 
2.43.0


From e3d2c342997d9431389923a37d636008ffaaef48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:04 +0000
Subject: [PATCH 26/42] fix: awaiting a default-constructed QmlTask does not
 use a task that does not exist

---
 qcoro/qml/qcoroqmltask.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qcoro/qml/qcoroqmltask.cpp b/qcoro/qml/qcoroqmltask.cpp
index 9627705..70a92a7 100644
--- a/qcoro/qml/qcoroqmltask.cpp
+++ b/qcoro/qml/qcoroqmltask.cpp
@@ -74,6 +74,12 @@ QmlTaskListener *QmlTask::await(const QVariant &intermediateValue)
     if (!intermediateValue.isNull()) {
         listener->setValue(QVariant(intermediateValue));
     }
+    if (!d->task) {
+        qCWarning(qcoroqml, ".await called on a QmlTask that is not connected to any coroutine. "
+                            "Make sure you don't default-construct QmlTask in your code");
+        return listener;
+    }
+
     d->task->then([listener](auto &&value) {
         if (listener) {
             listener->setValue(std::move(value));
-- 
2.43.0


From 953079fd071d817fda1f940de5ad9a3b602860bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:04 +0000
Subject: [PATCH 27/42] fix: do not call back into a QJSEngine that was
 destroyed

---
 qcoro/qml/qcoroqmltask.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/qcoro/qml/qcoroqmltask.cpp b/qcoro/qml/qcoroqmltask.cpp
index 70a92a7..4d4955c 100644
--- a/qcoro/qml/qcoroqmltask.cpp
+++ b/qcoro/qml/qcoroqmltask.cpp
@@ -32,7 +32,8 @@ inline QJSEngine *getEngineForValue(const QJSValue &val) {
     return val.engine();
     QT_WARNING_POP
 #else
-    return QJSValuePrivate::engine(&val)->jsEngine();
+    const auto *engine = QJSValuePrivate::engine(&val);
+    return engine ? engine->jsEngine() : nullptr;
 #endif
 }
 
@@ -63,8 +64,11 @@ void QmlTask::then(QJSValue func) {
     }
 
     d->task->then([func = std::move(func)](const QVariant &result) mutable -> void {
-        auto jsval = getEngineForValue(func)->toScriptValue(result);
-        func.call({jsval});
+        auto *engine = getEngineForValue(func);
+        if (!engine) { // the engine has been destroyed in the meantime
+            return;
+        }
+        func.call({engine->toScriptValue(result)});
     });
 }
 
-- 
2.43.0


From c8c7ebfac479ed6cb4140ec9494bdcb19e876d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:48 +0000
Subject: [PATCH 28/42] fix: awaiting a signal of an object that is gone does
 not read missing arguments

qCoro(obj, signal) dereferenced an empty optional when obj is null.
---
 qcoro/core/qcorosignal.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/qcoro/core/qcorosignal.h b/qcoro/core/qcorosignal.h
index 39c93e4..8607e65 100644
--- a/qcoro/core/qcorosignal.h
+++ b/qcoro/core/qcorosignal.h
@@ -377,6 +377,13 @@ template<QCoro::detail::concepts::QObject T, typename FuncPtr>
 inline auto qCoro(T *obj, FuncPtr &&ptr)
     -> QCoro::Task<typename QCoro::detail::QCoroSignal<T, FuncPtr>::result_type::value_type> {
     auto result = co_await qCoro<T, FuncPtr>(obj, std::forward<FuncPtr>(ptr), std::chrono::milliseconds{-1});
+    using value_type = typename QCoro::detail::QCoroSignal<T, FuncPtr>::result_type::value_type;
+    if constexpr (std::is_default_constructible_v<value_type>) {
+        // There is nothing to wait for when the object is already gone, and no arguments either.
+        if (!result.has_value()) {
+            co_return value_type{};
+        }
+    }
     co_return std::move(*result);
 }
 
-- 
2.43.0


From b1b4b6f15ee2fb94441381774c12336cf5ab9511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:55 +0000
Subject: [PATCH 29/42] fix: returning an lvalue from a coroutine copies it
 instead of moving from it

co_return of a member or of any other non-const lvalue emptied that object.
---
 qcoro/impl/taskpromise.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qcoro/impl/taskpromise.h b/qcoro/impl/taskpromise.h
index 2baf671..5913bff 100644
--- a/qcoro/impl/taskpromise.h
+++ b/qcoro/impl/taskpromise.h
@@ -38,7 +38,7 @@ inline void TaskPromise<T>::return_value(const T &value) noexcept {
 template<typename T>
 template<typename U> requires QCoro::concepts::constructible_from<T, U>
 inline void TaskPromise<T>::return_value(U &&value) noexcept {
-    mValue = std::move(value);
+    mValue = std::forward<U>(value);
 }
 
 template<typename T>
-- 
2.43.0


From 5c59bc76e5062c897a384f4715e1d3d4eaff0111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:02 +0000
Subject: [PATCH 30/42] fix: iterating an empty or finished generator ends at
 once instead of resuming no coroutine

---
 qcoro/qcoroasyncgenerator.h | 2 +-
 qcoro/qcorogenerator.h      | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/qcoro/qcoroasyncgenerator.h b/qcoro/qcoroasyncgenerator.h
index d61315f..81e3f01 100644
--- a/qcoro/qcoroasyncgenerator.h
+++ b/qcoro/qcoroasyncgenerator.h
@@ -338,7 +338,7 @@ public:
                 : IteratorAwaitableBase(producerCoroutine.promise(), producerCoroutine) {}
 
             bool await_ready() const noexcept {
-                return m_promise == nullptr || IteratorAwaitableBase::await_ready();
+                return m_promise == nullptr || m_producerCoroutine.done() || IteratorAwaitableBase::await_ready();
             }
 
             iterator await_resume() {
diff --git a/qcoro/qcorogenerator.h b/qcoro/qcorogenerator.h
index 71d5490..991c487 100644
--- a/qcoro/qcorogenerator.h
+++ b/qcoro/qcorogenerator.h
@@ -272,6 +272,9 @@ public:
      * If the generator coroutine has thrown an exception if will be rethrown from here.
      **/
     iterator begin() {
+        if (!mGeneratorCoroutine || mGeneratorCoroutine.done()) { // nothing to generate (anymore)
+            return iterator{nullptr};
+        }
         mGeneratorCoroutine.resume(); // generate first value
         if (mGeneratorCoroutine.promise().finished()) { // did not yield anything
             mGeneratorCoroutine.promise().rethrowIfException();
-- 
2.43.0


From cda79028169761c6536eb24ad696011bc38086bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:15 +0000
Subject: [PATCH 31/42] fix: a returned value always becomes the task's result,
 whatever type it is converted from

---
 qcoro/impl/taskpromise.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qcoro/impl/taskpromise.h b/qcoro/impl/taskpromise.h
index 5913bff..10f4837 100644
--- a/qcoro/impl/taskpromise.h
+++ b/qcoro/impl/taskpromise.h
@@ -38,13 +38,13 @@ inline void TaskPromise<T>::return_value(const T &value) noexcept {
 template<typename T>
 template<typename U> requires QCoro::concepts::constructible_from<T, U>
 inline void TaskPromise<T>::return_value(U &&value) noexcept {
-    mValue = std::forward<U>(value);
+    mValue.template emplace<T>(std::forward<U>(value));
 }
 
 template<typename T>
 template<typename U> requires QCoro::concepts::constructible_from<T, U>
 inline void TaskPromise<T>::return_value(const U &value) noexcept {
-    mValue = value;
+    mValue.template emplace<T>(value);
 }
 
 template<typename T>
-- 
2.43.0


From 0bd1ca90db47f467c2eae2002dc39417a64bf7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:32 +0000
Subject: [PATCH 32/42] fix: an exception thrown while making the returned
 value reaches the awaiter instead of terminating

---
 qcoro/impl/taskpromise.h |  8 ++++----
 qcoro/qcorotask.h        | 10 +++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/qcoro/impl/taskpromise.h b/qcoro/impl/taskpromise.h
index 10f4837..dcba2bc 100644
--- a/qcoro/impl/taskpromise.h
+++ b/qcoro/impl/taskpromise.h
@@ -26,24 +26,24 @@ inline void TaskPromise<T>::unhandled_exception() {
 }
 
 template<typename T>
-inline void TaskPromise<T>::return_value(T &&value) noexcept {
+inline void TaskPromise<T>::return_value(T &&value) {
     mValue.template emplace<T>(std::forward<T>(value));
 }
 
 template<typename T>
-inline void TaskPromise<T>::return_value(const T &value) noexcept {
+inline void TaskPromise<T>::return_value(const T &value) {
     mValue = value;
 }
 
 template<typename T>
 template<typename U> requires QCoro::concepts::constructible_from<T, U>
-inline void TaskPromise<T>::return_value(U &&value) noexcept {
+inline void TaskPromise<T>::return_value(U &&value) {
     mValue.template emplace<T>(std::forward<U>(value));
 }
 
 template<typename T>
 template<typename U> requires QCoro::concepts::constructible_from<T, U>
-inline void TaskPromise<T>::return_value(const U &value) noexcept {
+inline void TaskPromise<T>::return_value(const U &value) {
     mValue.template emplace<T>(value);
 }
 
diff --git a/qcoro/qcorotask.h b/qcoro/qcorotask.h
index 56c6d23..28158f3 100644
--- a/qcoro/qcorotask.h
+++ b/qcoro/qcorotask.h
@@ -212,16 +212,16 @@ public:
      * \param[in] value the value returned by the coroutine. It is stored in the
      *            promise, later can be retrieved by the calling coroutine.
      */
-    void return_value(T &&value) noexcept;
+    void return_value(T &&value);
 
-    //! \copydoc template<typename T> TaskPromise::return_value(T &&value) noexcept
-    void return_value(const T &value) noexcept;
+    //! \copydoc template<typename T> TaskPromise::return_value(T &&value)
+    void return_value(const T &value);
 
     template<typename U> requires QCoro::concepts::constructible_from<T, U>
-    void return_value(U &&value) noexcept;
+    void return_value(U &&value);
 
     template<typename U> requires QCoro::concepts::constructible_from<T, U>
-    void return_value(const U &value) noexcept;
+    void return_value(const U &value);
 
     //! Retrieves the result of the coroutine.
     /*!
-- 
2.43.0


From 256a0e6c8b7ef58092534cf4a41565f82eed2679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:37 +0000
Subject: [PATCH 33/42] fix: a second coroutine that awaits a lazy task does
 not start it again

---
 qcoro/impl/lazytask.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qcoro/impl/lazytask.h b/qcoro/impl/lazytask.h
index d69db6b..8f8bd75 100644
--- a/qcoro/impl/lazytask.h
+++ b/qcoro/impl/lazytask.h
@@ -44,8 +44,13 @@ inline auto LazyTask<T>::operator co_await() const noexcept {
         TaskAwaiter(std::coroutine_handle<promise_type> thisTask)
             : detail::TaskAwaiterBase<promise_type>{thisTask} {}
 
-        auto await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept {
+        std::coroutine_handle<> await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept {
+            // Only the first awaiter starts the lazy task, the others just wait for it like it does.
+            const bool start = this->mAwaitedCoroutine && !this->mAwaitedCoroutine.promise().hasAwaitingCoroutine();
             detail::TaskAwaiterBase<promise_type>::await_suspend(awaitingCoroutine);
+            if (!start) {
+                return std::noop_coroutine();
+            }
             // Return handle to the lazy task, so that it gets automatically resumed.
             return this->mAwaitedCoroutine;
         }
-- 
2.43.0


From cb96f6f6a1404cfaa0d9f48e39e93c11a7a8df35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:07 +0000
Subject: [PATCH 34/42] fix: destroy the right coroutine when the task's value
 is over-aligned

---
 qcoro/impl/taskbase.h         | 4 ++--
 qcoro/impl/taskfinalsuspend.h | 2 +-
 qcoro/impl/taskpromisebase.h  | 9 ++++-----
 qcoro/qcorotask.h             | 6 ++++--
 4 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/qcoro/impl/taskbase.h b/qcoro/impl/taskbase.h
index 6871a9c..8cfd8d3 100644
--- a/qcoro/impl/taskbase.h
+++ b/qcoro/impl/taskbase.h
@@ -30,7 +30,7 @@ template<typename T, template<typename> class TaskImpl, typename PromiseType>
 inline auto TaskBase<T, TaskImpl, PromiseType>::operator=(TaskBase &&other) noexcept -> TaskBase & {
     if (std::addressof(other) != this) {
         if (mCoroutine) {
-            mCoroutine.promise().derefCoroutine();
+            mCoroutine.promise().derefCoroutine(mCoroutine);
         }
 
         mCoroutine = other.mCoroutine;
@@ -42,7 +42,7 @@ inline auto TaskBase<T, TaskImpl, PromiseType>::operator=(TaskBase &&other) noex
 template<typename T, template<typename> class TaskImpl, typename PromiseType>
 inline TaskBase<T, TaskImpl, PromiseType>::~TaskBase() {
     if (mCoroutine) {
-        mCoroutine.promise().derefCoroutine();
+        mCoroutine.promise().derefCoroutine(mCoroutine);
     }
 }
 
diff --git a/qcoro/impl/taskfinalsuspend.h b/qcoro/impl/taskfinalsuspend.h
index e008b4c..9710f7b 100644
--- a/qcoro/impl/taskfinalsuspend.h
+++ b/qcoro/impl/taskfinalsuspend.h
@@ -30,7 +30,7 @@ inline void TaskFinalSuspend::await_suspend(std::coroutine_handle<Promise> finis
     mAwaitingCoroutines.clear();
 
     // The handle will be destroyed here only if the associated Task has already been destroyed
-    promise.derefCoroutine();
+    promise.derefCoroutine(finishedCoroutine);
 }
 
 constexpr void TaskFinalSuspend::await_resume() const noexcept {}
diff --git a/qcoro/impl/taskpromisebase.h b/qcoro/impl/taskpromisebase.h
index 1fb7d4b..12d8775 100644
--- a/qcoro/impl/taskpromisebase.h
+++ b/qcoro/impl/taskpromisebase.h
@@ -50,9 +50,9 @@ inline bool TaskPromiseBase::hasAwaitingCoroutine() const {
     return !mAwaitingCoroutines.empty();
 }
 
-inline void TaskPromiseBase::derefCoroutine() {
+inline void TaskPromiseBase::derefCoroutine(std::coroutine_handle<> coroutine) {
     if (--mRefCount == 0) {
-        destroyCoroutine();
+        destroyCoroutine(coroutine);
     }
 }
 
@@ -60,10 +60,9 @@ inline void TaskPromiseBase::refCoroutine() {
     ++mRefCount;
 }
 
-inline void TaskPromiseBase::destroyCoroutine() {
+inline void TaskPromiseBase::destroyCoroutine(std::coroutine_handle<> coroutine) {
     mRefCount = 0;
-    auto handle = std::coroutine_handle<TaskPromiseBase>::from_promise(*this);
-    handle.destroy();
+    coroutine.destroy();
 }
 
 } // namespace QCoro::detail
diff --git a/qcoro/qcorotask.h b/qcoro/qcorotask.h
index 28158f3..cf1fb55 100644
--- a/qcoro/qcorotask.h
+++ b/qcoro/qcorotask.h
@@ -168,9 +168,11 @@ public:
 
     bool hasAwaitingCoroutine() const;
 
-    void derefCoroutine();
+    // The coroutine is this promise's own. It's passed as a handle, because it cannot be told from the base class:
+    // where the promise is in the coroutine state depends on the alignment of the actual promise type.
+    void derefCoroutine(std::coroutine_handle<> coroutine);
     void refCoroutine();
-    void destroyCoroutine();
+    void destroyCoroutine(std::coroutine_handle<> coroutine);
 
 protected:
     explicit TaskPromiseBase();
-- 
2.43.0


From d2bb112d6f32368cbf9c09ff13b07f5728c0e103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:54 +0000
Subject: [PATCH 35/42] fix: a lazy task that was never awaited does not leak
 its coroutine

---
 qcoro/impl/lazytask.h | 19 +++++++++++++++++--
 qcoro/qcorolazytask.h | 20 +++++++++++++++++++-
 2 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/qcoro/impl/lazytask.h b/qcoro/impl/lazytask.h
index 8f8bd75..fa3a6d5 100644
--- a/qcoro/impl/lazytask.h
+++ b/qcoro/impl/lazytask.h
@@ -20,9 +20,24 @@ inline LazyTask<T> LazyTaskPromise<T>::get_return_object() noexcept {
     return LazyTask<T>(std::coroutine_handle<LazyTaskPromise>::from_promise(*this));
 }
 
+inline LazyTaskInitialSuspend::LazyTaskInitialSuspend(TaskPromiseBase &promise)
+    : mPromise(promise) {}
+
+inline bool LazyTaskInitialSuspend::await_ready() const noexcept {
+    return false;
+}
+
+inline void LazyTaskInitialSuspend::await_suspend(std::coroutine_handle<> coroutine) noexcept {
+    mPromise.derefCoroutine(coroutine);
+}
+
+inline void LazyTaskInitialSuspend::await_resume() noexcept {
+    mPromise.refCoroutine();
+}
+
 template<typename T>
-inline std::suspend_always LazyTaskPromise<T>::initial_suspend() const noexcept {
-    return {};
+inline LazyTaskInitialSuspend LazyTaskPromise<T>::initial_suspend() noexcept {
+    return LazyTaskInitialSuspend{*this};
 }
 
 } // namespace detail
diff --git a/qcoro/qcorolazytask.h b/qcoro/qcorolazytask.h
index 93635c9..10b1e56 100644
--- a/qcoro/qcorolazytask.h
+++ b/qcoro/qcorolazytask.h
@@ -21,6 +21,24 @@ struct isTask<QCoro::LazyTask<T>> : std::true_type {
     using return_type = typename QCoro::LazyTask<T>::value_type;
 };
 
+//! Suspends a lazy coroutine until it's awaited for the first time.
+/*!
+ * A coroutine that has been started keeps itself alive until it finishes. A coroutine that has not been
+ * started yet would never finish, so it's only kept alive by its LazyTask.
+ */
+class LazyTaskInitialSuspend
+{
+public:
+    explicit LazyTaskInitialSuspend(TaskPromiseBase &promise);
+
+    bool await_ready() const noexcept;
+    void await_suspend(std::coroutine_handle<> coroutine) noexcept;
+    void await_resume() noexcept;
+
+private:
+    TaskPromiseBase &mPromise;
+};
+
 template<typename T>
 class LazyTaskPromise : public TaskPromise<T>
 {
@@ -29,7 +47,7 @@ public:
 
     LazyTask<T> get_return_object() noexcept;
 
-    std::suspend_always initial_suspend() const noexcept;
+    LazyTaskInitialSuspend initial_suspend() noexcept;
 };
 
 } // namespace detail
-- 
2.43.0


From 5208095d4ea8a6bd1dedcbfba35e3b2aafea742b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:41 +0000
Subject: [PATCH 36/42] fix: connect() keeps a temporary awaitable until it has
 finished

---
 qcoro/impl/connect.h     | 2 +-
 qcoro/impl/waitfor.h     | 4 +++-
 qcoro/qml/qcoroqmltask.h | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/qcoro/impl/connect.h b/qcoro/impl/connect.h
index 7b01416..8e6050e 100644
--- a/qcoro/impl/connect.h
+++ b/qcoro/impl/connect.h
@@ -54,7 +54,7 @@ requires detail::TaskConvertible<T>
         && (std::is_invocable_v<Callback> || std::is_invocable_v<Callback, detail::convertible_awaitable_return_type_t<T>> || std::is_invocable_v<Callback, QObjectSubclass *> || std::is_invocable_v<Callback, QObjectSubclass *, detail::convertible_awaitable_return_type_t<T>>)
         && (!detail::isTask_v<T>)
 inline void connect(T &&future, QObjectSubclass *context, Callback func) {
-    auto task = detail::toTask(std::move(future));
+    auto task = detail::toTask<T>(std::forward<T>(future));
     connect(std::move(task), context, func);
 }
 
diff --git a/qcoro/impl/waitfor.h b/qcoro/impl/waitfor.h
index 40a5993..be5d19a 100644
--- a/qcoro/impl/waitfor.h
+++ b/qcoro/impl/waitfor.h
@@ -20,9 +20,11 @@ namespace QCoro
 namespace detail
 {
 
+// A temporary is kept in the task until it has finished, an object of the caller's (an lvalue) is referred to:
+// Awaitable is given explicitly, as T of the forwarding reference that the awaitable was passed through.
 template <typename Awaitable>
 requires TaskConvertible<Awaitable>
-auto toTask(Awaitable &&future) -> QCoro::Task<detail::convertible_awaitable_return_type_t<Awaitable>> {
+auto toTask(Awaitable future) -> QCoro::Task<detail::convertible_awaitable_return_type_t<std::remove_reference_t<Awaitable>>> {
     co_return co_await future;
 }
 
diff --git a/qcoro/qml/qcoroqmltask.h b/qcoro/qml/qcoroqmltask.h
index 83412c8..e802f58 100644
--- a/qcoro/qml/qcoroqmltask.h
+++ b/qcoro/qml/qcoroqmltask.h
@@ -57,7 +57,7 @@ public:
      */
     template <typename T>
     requires (detail::TaskConvertible<T> && !std::is_same_v<T, QmlTask>)
-    QmlTask(T &&future) : QmlTask(detail::toTask(std::forward<T>(future)))
+    QmlTask(T &&future) : QmlTask(detail::toTask<T>(std::forward<T>(future)))
     {
     }
 
-- 
2.43.0


From 523db8d91f2f63e06659333c8097abe85b168765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:01 +0000
Subject: [PATCH 37/42] fix: waiting for a process that is gone does not use it

---
 qcoro/core/qcoroprocess.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/qcoro/core/qcoroprocess.cpp b/qcoro/core/qcoroprocess.cpp
index 2f7b2de..9a23e04 100644
--- a/qcoro/core/qcoroprocess.cpp
+++ b/qcoro/core/qcoroprocess.cpp
@@ -45,6 +45,10 @@ QCoro::Task<bool> QCoroProcess::waitForStarted(int timeout_msecs) {
 
 QCoro::Task<bool> QCoroProcess::waitForStarted(std::chrono::milliseconds timeout) {
     const auto *process = qobject_cast<QProcess *>(mDevice.data());
+    if (!process) {
+        co_return false;
+    }
+
     if (process->state() == QProcess::Starting) {
         ProcessSignalHelper helper(process, &QProcess::started);
         const auto started = co_await qCoro(&helper, &ProcessSignalHelper::ready, timeout);
@@ -60,7 +64,7 @@ QCoro::Task<bool> QCoroProcess::waitForFinished(int timeout_msecs) {
 
 QCoro::Task<bool> QCoroProcess::waitForFinished(std::chrono::milliseconds timeout) {
     const auto *process = qobject_cast<QProcess *>(mDevice.data());
-    if (process->state() == QProcess::NotRunning) {
+    if (!process || process->state() == QProcess::NotRunning) {
         co_return false;
     }
 
@@ -70,13 +74,17 @@ QCoro::Task<bool> QCoroProcess::waitForFinished(std::chrono::milliseconds timeou
 }
 
 QCoro::Task<bool> QCoroProcess::start(QIODevice::OpenMode mode, std::chrono::milliseconds timeout) {
-    static_cast<QProcess *>(mDevice.data())->start(mode);
+    if (auto *process = static_cast<QProcess *>(mDevice.data())) {
+        process->start(mode);
+    }
     return waitForStarted(timeout);
 }
 
 QCoro::Task<bool> QCoroProcess::start(const QString &program, const QStringList &arguments,
                                       QIODevice::OpenMode mode, std::chrono::milliseconds timeout) {
-    static_cast<QProcess *>(mDevice.data())->start(program, arguments, mode);
+    if (auto *process = static_cast<QProcess *>(mDevice.data())) {
+        process->start(program, arguments, mode);
+    }
     return waitForStarted(timeout);
 }
 
-- 
2.43.0


From 3d231aef0e4461ecbcb2187f7f8316ed934c8871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:01 +0000
Subject: [PATCH 38/42] fix: waiting for a thread that is gone does not use it

---
 qcoro/core/qcorothread.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/qcoro/core/qcorothread.cpp b/qcoro/core/qcorothread.cpp
index ac8ba66..022aa51 100644
--- a/qcoro/core/qcorothread.cpp
+++ b/qcoro/core/qcorothread.cpp
@@ -102,6 +102,10 @@ QCoroThread::QCoroThread(QThread *thread)
 {}
 
 QCoro::Task<bool> QCoroThread::waitForStarted(std::chrono::milliseconds timeout) {
+    if (!mThread) {
+        co_return false;
+    }
+
     ThreadSignalHelper helper(mThread.data(), &QThread::started);
     if (mThread->isRunning()) {
         co_return true;
@@ -115,6 +119,10 @@ QCoro::Task<bool> QCoroThread::waitForStarted(std::chrono::milliseconds timeout)
 }
 
 QCoro::Task<bool> QCoroThread::waitForFinished(std::chrono::milliseconds timeout) {
+    if (!mThread) {
+        co_return false;
+    }
+
     ThreadSignalHelper helper(mThread.data(), &QThread::finished);
     if (!mThread->isRunning()) {
         co_return mThread->isFinished();
-- 
2.43.0


From 3a20910cfdc3db2dfaa4e584cb0d7462be82005b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:02 +0000
Subject: [PATCH 39/42] fix: connecting or waiting for a socket that is gone
 does not use it

---
 qcoro/network/qcoroabstractsocket.cpp | 11 ++++++++++-
 qcoro/network/qcorolocalsocket.cpp    | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/qcoro/network/qcoroabstractsocket.cpp b/qcoro/network/qcoroabstractsocket.cpp
index ca3a5da..a5c213f 100644
--- a/qcoro/network/qcoroabstractsocket.cpp
+++ b/qcoro/network/qcoroabstractsocket.cpp
@@ -98,6 +98,9 @@ QCoro::Task<bool> QCoroAbstractSocket::waitForConnected(int timeout_msecs) {
 
 QCoro::Task<bool> QCoroAbstractSocket::waitForConnected(std::chrono::milliseconds timeout) {
     const auto *socket = static_cast<QAbstractSocket *>(mDevice.data());
+    if (!socket) {
+        co_return false;
+    }
     if (socket->state() == QAbstractSocket::ConnectedState) {
         co_return true;
     }
@@ -113,7 +116,7 @@ QCoro::Task<bool> QCoroAbstractSocket::waitForDisconnected(int timeout_msecs) {
 
 QCoro::Task<bool> QCoroAbstractSocket::waitForDisconnected(std::chrono::milliseconds timeout) {
     const auto *socket = static_cast<QAbstractSocket *>(mDevice.data());
-    if (socket->state() == QAbstractSocket::UnconnectedState) {
+    if (!socket || socket->state() == QAbstractSocket::UnconnectedState) {
         co_return false;
     }
 
@@ -126,6 +129,9 @@ QCoro::Task<bool> QCoroAbstractSocket::connectToHost(const QString &hostName, qu
                                                      QIODevice::OpenMode openMode, QAbstractSocket::NetworkLayerProtocol protocol,
                                                      std::chrono::milliseconds timeout) {
     auto *socket = static_cast<QAbstractSocket *>(mDevice.data());
+    if (!socket) {
+        return connectionFailed();
+    }
     socket->connectToHost(hostName, port, openMode, protocol);
     if (socket->state() == QAbstractSocket::UnconnectedState) {
         return connectionFailed();
@@ -136,6 +142,9 @@ QCoro::Task<bool> QCoroAbstractSocket::connectToHost(const QString &hostName, qu
 QCoro::Task<bool> QCoroAbstractSocket::connectToHost(const QHostAddress &address, quint16 port,
                                                      QIODevice::OpenMode openMode, std::chrono::milliseconds timeout) {
     auto *socket = static_cast<QAbstractSocket *>(mDevice.data());
+    if (!socket) {
+        return connectionFailed();
+    }
     socket->connectToHost(address, port, openMode);
     if (socket->state() == QAbstractSocket::UnconnectedState) {
         return connectionFailed();
diff --git a/qcoro/network/qcorolocalsocket.cpp b/qcoro/network/qcorolocalsocket.cpp
index bb00a79..6cd74f9 100644
--- a/qcoro/network/qcorolocalsocket.cpp
+++ b/qcoro/network/qcorolocalsocket.cpp
@@ -122,6 +122,9 @@ QCoro::Task<bool> QCoroLocalSocket::waitForConnected(int timeout_msecs) {
 
 QCoro::Task<bool> QCoroLocalSocket::waitForConnected(std::chrono::milliseconds timeout) {
     const auto *socket = static_cast<QLocalSocket *>(mDevice.data());
+    if (!socket) {
+        co_return false;
+    }
     if (socket->state() == QLocalSocket::ConnectedState) {
         co_return true;
     }
@@ -136,7 +139,7 @@ QCoro::Task<bool> QCoroLocalSocket::waitForDisconnected(int timeout_msecs) {
 
 QCoro::Task<bool> QCoroLocalSocket::waitForDisconnected(std::chrono::milliseconds timeout) {
     const auto *socket = static_cast<QLocalSocket *>(mDevice.data());
-    if (socket->state() == QLocalSocket::UnconnectedState) {
+    if (!socket || socket->state() == QLocalSocket::UnconnectedState) {
         co_return false;
     }
     // A socket that fails to connect gets unconnected without emitting disconnected().
@@ -148,6 +151,9 @@ QCoro::Task<bool> QCoroLocalSocket::waitForDisconnected(std::chrono::millisecond
 QCoro::Task<bool> QCoroLocalSocket::connectToServer(QIODevice::OpenMode openMode,
                                                     std::chrono::milliseconds timeout) {
     auto *socket = static_cast<QLocalSocket *>(mDevice.data());
+    if (!socket) {
+        return connectionFailed();
+    }
     socket->connectToServer(openMode);
     if (socket->state() == QLocalSocket::UnconnectedState) {
         return connectionFailed();
@@ -158,6 +164,9 @@ QCoro::Task<bool> QCoroLocalSocket::connectToServer(QIODevice::OpenMode openMode
 QCoro::Task<bool> QCoroLocalSocket::connectToServer(const QString &name, QIODevice::OpenMode openMode,
                                                     std::chrono::milliseconds timeout) {
     auto *socket = static_cast<QLocalSocket *>(mDevice.data());
+    if (!socket) {
+        return connectionFailed();
+    }
     socket->connectToServer(name, openMode);
     if (socket->state() == QLocalSocket::UnconnectedState) {
         return connectionFailed();
-- 
2.43.0


From cae6fabdafaf2abb9558166da3895c52999b393e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:02 +0000
Subject: [PATCH 40/42] fix: waiting for a network reply that is gone does not
 use it

---
 qcoro/network/qcoronetworkreply.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qcoro/network/qcoronetworkreply.cpp b/qcoro/network/qcoronetworkreply.cpp
index eff24df..aada552 100644
--- a/qcoro/network/qcoronetworkreply.cpp
+++ b/qcoro/network/qcoronetworkreply.cpp
@@ -104,6 +104,9 @@ QCoro::Task<std::optional<qint64>> QCoroNetworkReply::waitForBytesWrittenImpl(st
 
 QCoro::Task<bool> QCoroNetworkReply::waitForFinished(std::chrono::milliseconds timeout) {
     const auto *reply = static_cast<QNetworkReply *>(mDevice.data());
+    if (!reply) {
+        co_return false;
+    }
     if (reply->isFinished()) {
         co_return true;
     }
-- 
2.43.0


From 1920a717908ab6a58999d5edea8f5986b9cd5605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:02 +0000
Subject: [PATCH 41/42] fix: waiting for a connection of a server that is gone
 does not use it

---
 qcoro/network/qcorotcpserver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qcoro/network/qcorotcpserver.cpp b/qcoro/network/qcorotcpserver.cpp
index d575834..8d229d2 100644
--- a/qcoro/network/qcorotcpserver.cpp
+++ b/qcoro/network/qcorotcpserver.cpp
@@ -36,7 +36,7 @@ QCoro::Task<QTcpSocket *> QCoroTcpServer::waitForNewConnection(int timeout_msecs
 
 QCoro::Task<QTcpSocket *> QCoroTcpServer::waitForNewConnection(std::chrono::milliseconds timeout) {
     const auto server = mServer;
-    if (!server->isListening()) {
+    if (!server || !server->isListening()) {
         co_return nullptr;
     }
     if (server->hasPendingConnections()) {
-- 
2.43.0


From 3f92078544314851da686cbee00c57190edd5957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:02 +0000
Subject: [PATCH 42/42] fix: writing to a device that is gone does not use it

---
 qcoro/core/qcoroiodevice.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qcoro/core/qcoroiodevice.cpp b/qcoro/core/qcoroiodevice.cpp
index 3efdd85..43d8428 100644
--- a/qcoro/core/qcoroiodevice.cpp
+++ b/qcoro/core/qcoroiodevice.cpp
@@ -91,6 +91,10 @@ QCoro::Task<QByteArray> QCoroIODevice::readLine(qint64 maxSize, std::chrono::mil
 QCoro::Task<qint64> QCoroIODevice::write(const QByteArray &buffer) {
     // The wrapper can be a temporary that is gone once the coroutine has been suspended.
     const auto self = clone();
+    if (!mDevice) {
+        co_return 0;
+    }
+
     const auto bytesWritten = mDevice->write(buffer);
     qint64 bytesConfirmed = 0;
     while (bytesConfirmed < bytesWritten) {
-- 
2.43.0

