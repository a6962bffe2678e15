From a2fb73b54736909368b804bfc97d9e79b4d1d488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:49 +0000
Subject: [PATCH 01/90] fix: leave no open library or OM_CONSTANT_PATH behind
 when loading a model fails

A failed ExecutionSession::loadModel leaked the dlopen handle and left
OM_CONSTANT_PATH set, so the next model looked for its constants in the
failed model's directory. The library handle of a default-constructed session
was uninitialised and passed to dlclose.
---
 src/Runtime/ExecutionSession.cpp | 45 ++++++++++++++++++++++++--------
 src/Runtime/ExecutionSession.hpp |  5 +++-
 2 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/src/Runtime/ExecutionSession.cpp b/src/Runtime/ExecutionSession.cpp
index aa512d0..9eda4b3 100644
--- a/src/Runtime/ExecutionSession.cpp
+++ b/src/Runtime/ExecutionSession.cpp
@@ -76,9 +76,29 @@ void ExecutionSession::loadModel(const std::string &sharedLibPath,
 
   std::string tag = modelTag;
 
+  // Undo on every exit what must not outlive the load: the temporary setting of
+  // OM_CONSTANT_PATH (it would conflict with the load of another model), and,
+  // if the load fails, the library that was opened.
+  bool setOMConstantPath = false;
+  bool isLoaded = false;
+  struct LoadGuard {
+    ExecutionSession &session;
+    bool &setOMConstantPath, &isLoaded;
+    ~LoadGuard() {
+      if (setOMConstantPath) {
+#if defined(_WIN32)
+        _putenv_s("OM_CONSTANT_PATH", "");
+#else
+        unsetenv("OM_CONSTANT_PATH");
+#endif
+      }
+      if (!isLoaded)
+        session.unloadModel();
+    }
+  } loadGuard{*this, setOMConstantPath, isLoaded};
+
   // If OM_CONSTANT_PATH is not set, set it for loading constants from file. Do
   // this before dlopen since OM_CONSTANT_PATH is used by constructors.
-  bool setOMConstantPath = false;
   if (!std::getenv("OM_CONSTANT_PATH")) {
     std::size_t found = sharedLibPath.find_last_of("/\\");
     if (found != std::string::npos) {
@@ -213,32 +233,35 @@ void ExecutionSession::loadModel(const std::string &sharedLibPath,
   // Successful completion of initialization.
   isInitialized = true;
 
-  // Unset OM_CONSTANT_PATH to avoid conflict with the load of another model.
-  if (setOMConstantPath) {
-#if defined(_WIN32)
-    _putenv_s("OM_CONSTANT_PATH", "");
-#else
-    unsetenv("OM_CONSTANT_PATH");
-#endif
-  }
-
   // Set default entry point if requested.
   if (defaultEntryPoint)
     setEntryPoint("run_main_graph" + lowDashTag);
 
+  isLoaded = true;
   errno = 0; // No errors.
 }
 
-ExecutionSession::~ExecutionSession() {
+void ExecutionSession::unloadModel() {
 #if defined(_WIN32)
   if (_sharedLibraryHandle.isValid())
     llvm::sys::DynamicLibrary::closeLibrary(_sharedLibraryHandle);
+  _sharedLibraryHandle = DynamicLibraryHandleType();
 #else
   if (_sharedLibraryHandle)
     dlclose(_sharedLibraryHandle);
+  _sharedLibraryHandle = nullptr;
 #endif
+  isInitialized = false;
+  _entryPointFunc = nullptr;
+  _queryEntryPointsFunc = nullptr;
+  _inputSignatureFunc = nullptr;
+  _outputSignatureFunc = nullptr;
+  _compilationInfoFunc = nullptr;
+  _printInstrumentationFunc = nullptr;
 }
 
+ExecutionSession::~ExecutionSession() { unloadModel(); }
+
 // =============================================================================
 // Setter and getter.
 
diff --git a/src/Runtime/ExecutionSession.hpp b/src/Runtime/ExecutionSession.hpp
index c46fd8e..f461902 100644
--- a/src/Runtime/ExecutionSession.hpp
+++ b/src/Runtime/ExecutionSession.hpp
@@ -153,7 +153,7 @@ protected:
   bool isInitialized = false;
 
   // Handler to the shared library file being loaded.
-  DynamicLibraryHandleType _sharedLibraryHandle;
+  DynamicLibraryHandleType _sharedLibraryHandle{};
 
   // Entry point function.
   std::string _entryPointName;
@@ -186,6 +186,9 @@ protected:
   OMTensorList *runImplementation(OMTensorList *input, bool useSignalHandler);
 
 private:
+  // Close the library, if any, and return to the state before the load.
+  void unloadModel();
+
   // Run with without signal handler.
   OMTensorList *runWithoutSignalHandler(OMTensorList *input);
 
-- 
2.43.0


From a043cd039d08d96f5b5bd060db8a32e5b1969ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:49 +0000
Subject: [PATCH 02/90] fix: report or survive allocation failures around
 ExecutionSession::run

A failed creation of the wrapped input list was passed to the model as a null
list, and the outputs leaked when the vector holding them could not be
allocated.
---
 src/Runtime/ExecutionSession.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Runtime/ExecutionSession.cpp b/src/Runtime/ExecutionSession.cpp
index 9eda4b3..572c7f0 100644
--- a/src/Runtime/ExecutionSession.cpp
+++ b/src/Runtime/ExecutionSession.cpp
@@ -371,6 +371,8 @@ std::vector<OMTensorUniquePtr> ExecutionSession::run(
     omts.emplace_back(inOmt.get());
   auto *wrappedInput =
       omTensorListCreate(omts.data(), static_cast<int64_t>(omts.size()));
+  if (!wrappedInput)
+    throw ExecutionSessionException(reportErrnoError());
 
   // Run inference.
   errno = 0; // Clear errno.
@@ -385,6 +387,12 @@ std::vector<OMTensorUniquePtr> ExecutionSession::run(
     throw ExecutionSessionException(reportErrnoError());
 
   std::vector<OMTensorUniquePtr> outs;
+  try {
+    outs.reserve(omTensorListGetSize(wrappedOutput));
+  } catch (...) {
+    omTensorListDestroy(wrappedOutput);
+    throw;
+  }
   for (int64_t i = 0; i < omTensorListGetSize(wrappedOutput); i++) {
     outs.emplace_back(OMTensorUniquePtr(
         omTensorListGetOmtByIndex(wrappedOutput, i), omTensorDestroy));
-- 
2.43.0


From 3b73ac99d4e8a155b3994f6e749f35de09e2c2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:36 +0000
Subject: [PATCH 03/90] fix: restore signal state completely after a guarded
 run

SIGABRT's old disposition was saved over SIGILL's and not restored after a
crash, and the caught signal stayed blocked, so that the next crash with the
same signal killed the process.
---
 src/Runtime/ExecutionSession.cpp | 16 +++++++++-------
 src/Runtime/ExecutionSession.hpp |  2 +-
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/Runtime/ExecutionSession.cpp b/src/Runtime/ExecutionSession.cpp
index 572c7f0..7bbc8bf 100644
--- a/src/Runtime/ExecutionSession.cpp
+++ b/src/Runtime/ExecutionSession.cpp
@@ -41,7 +41,7 @@ namespace onnx_mlir {
 // =============================================================================
 // Static member initialization for signal handling (POSIX only)
 
-std::jmp_buf ExecutionSession::signalJumpBuffer;
+sigjmp_buf ExecutionSession::signalJumpBuffer;
 volatile sig_atomic_t ExecutionSession::signalCaught = 0;
 volatile sig_atomic_t ExecutionSession::signalNumber = 0;
 
@@ -51,7 +51,7 @@ volatile sig_atomic_t ExecutionSession::signalNumber = 0;
 void ExecutionSession::signalHandler(int signum) {
   signalCaught = 1;
   signalNumber = signum;
-  std::longjmp(signalJumpBuffer, signum);
+  siglongjmp(signalJumpBuffer, signum);
 }
 #endif
 
@@ -466,7 +466,7 @@ OMTensorList *ExecutionSession::runWithSignalHandler(OMTensorList *input) {
   return nullptr;
 #else
   // Save old signal handlers
-  struct sigaction oldSigsegv, oldSigbus, oldSigfpe, oldSigill;
+  struct sigaction oldSigsegv, oldSigbus, oldSigfpe, oldSigill, oldSigabrt;
   struct sigaction newAction;
 
   // Setup new signal handler
@@ -479,7 +479,7 @@ OMTensorList *ExecutionSession::runWithSignalHandler(OMTensorList *input) {
   sigaction(SIGBUS, &newAction, &oldSigbus);
   sigaction(SIGFPE, &newAction, &oldSigfpe);
   sigaction(SIGILL, &newAction, &oldSigill);
-  sigaction(SIGABRT, &newAction, &oldSigill);
+  sigaction(SIGABRT, &newAction, &oldSigabrt);
 
   // Reset signal state
   signalCaught = 0;
@@ -487,8 +487,9 @@ OMTensorList *ExecutionSession::runWithSignalHandler(OMTensorList *input) {
 
   OMTensorList *output = nullptr;
 
-  // Set up the jump point for signal handler
-  int signum = setjmp(signalJumpBuffer);
+  // Set up the jump point for signal handler. Jumping back also restores the
+  // signal mask, as the caught signal is blocked while in its handler.
+  int signum = sigsetjmp(signalJumpBuffer, /*savemask*/ 1);
 
   if (signum == 0) {
     // First time through - run the inference
@@ -500,7 +501,7 @@ OMTensorList *ExecutionSession::runWithSignalHandler(OMTensorList *input) {
     sigaction(SIGBUS, &oldSigbus, nullptr);
     sigaction(SIGFPE, &oldSigfpe, nullptr);
     sigaction(SIGILL, &oldSigill, nullptr);
-    sigaction(SIGABRT, &oldSigill, nullptr);
+    sigaction(SIGABRT, &oldSigabrt, nullptr);
     // Throw error if nullptr output (list expected in successful executions).
     if (!output)
       throw ExecutionSessionException(reportErrnoError());
@@ -514,6 +515,7 @@ OMTensorList *ExecutionSession::runWithSignalHandler(OMTensorList *input) {
     sigaction(SIGBUS, &oldSigbus, nullptr);
     sigaction(SIGFPE, &oldSigfpe, nullptr);
     sigaction(SIGILL, &oldSigill, nullptr);
+    sigaction(SIGABRT, &oldSigabrt, nullptr);
     // Set errno to the signal number for error reporting
     errno = signum;
     throw ExecutionSessionException(reportErrnoError(/*from signal*/ true));
diff --git a/src/Runtime/ExecutionSession.hpp b/src/Runtime/ExecutionSession.hpp
index f461902..4b5e1e8 100644
--- a/src/Runtime/ExecutionSession.hpp
+++ b/src/Runtime/ExecutionSession.hpp
@@ -144,7 +144,7 @@ protected:
 #if !defined(_WIN32)
   // Signal handling infrastructure (POSIX only)
   static void signalHandler(int signum);
-  static std::jmp_buf signalJumpBuffer;
+  static sigjmp_buf signalJumpBuffer;
   static volatile sig_atomic_t signalCaught;
   static volatile sig_atomic_t signalNumber;
 #endif
-- 
2.43.0


From 2b9b20624cb8937d8ac8fbe5e2c7d58f91187fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:27 +0000
Subject: [PATCH 04/90] fix: keep every time event of the performance report

The after line was printed if and only if the entry had a before event, so the
after lines of nested operations were lost and before-only entries printed a
stale after time; consecutive runs of one operation were merged into one.
---
 src/Runtime/OMInstrument.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Runtime/OMInstrument.c b/src/Runtime/OMInstrument.c
index d5ccb2f..684df33 100644
--- a/src/Runtime/OMInstrument.c
+++ b/src/Runtime/OMInstrument.c
@@ -250,7 +250,7 @@ static void flushRecordBuffer() {
     bool isBefore = IS_INSTRUMENT_BEFORE_OP(tag);
     if (isBefore)
       PrintTime(&timeRecordBuffer[i].beforeTime, /*before*/ true);
-    bool isAfter = IS_INSTRUMENT_BEFORE_OP(tag);
+    bool isAfter = IS_INSTRUMENT_AFTER_OP(tag);
     if (isAfter)
       PrintTime(&timeRecordBuffer[i].afterTime, /*before*/ false);
   }
@@ -262,8 +262,11 @@ static void updateRecordBuffer(
     const char *opName, uint64_t tag, const char *nodeName) {
   int64_t i = bufferIndex - 1;
   if (i >= 0 && timeRecordBuffer[i].opName == opName &&
-      timeRecordBuffer[i].nodeName == nodeName) {
-    // Can reuse entry, or the tags so we have bits for both.
+      timeRecordBuffer[i].nodeName == nodeName &&
+      IS_INSTRUMENT_AFTER_OP(tag) &&
+      !IS_INSTRUMENT_AFTER_OP(timeRecordBuffer[i].tag)) {
+    // Can reuse the entry of the matching before event; or the tags so we have
+    // bits for both.
     timeRecordBuffer[i].tag = timeRecordBuffer[i].tag | tag;
   } else {
     // Need a new entry; flush if full, then initialize entry.
-- 
2.43.0


From d36066af990ecbb3c329e7e74bea6845dd06fd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:27 +0000
Subject: [PATCH 05/90] fix: close the performance report file at the end of
 each report

The file was opened anew for every report and never closed.
---
 src/Runtime/OMInstrument.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Runtime/OMInstrument.c b/src/Runtime/OMInstrument.c
index 684df33..8e30fb8 100644
--- a/src/Runtime/OMInstrument.c
+++ b/src/Runtime/OMInstrument.c
@@ -356,6 +356,9 @@ static void startInstrumentation() {
 /// So essentially this call make sure that all of the timeing info is printed.
 void omInstrumentPrint() {
   flushRecordBuffer();
+  // The report file is opened again at the start of the next report.
+  if (instrumentFout && instrumentFout != stdout)
+    fclose(instrumentFout);
   resetLocalState();
 }
 
-- 
2.43.0


From e4a16a027584b3b998c647c31cc95b06b1e5a7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:27 +0000
Subject: [PATCH 06/90] fix: do not report uninitialised memory when ps prints
 nothing

---
 src/Runtime/OMInstrument.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Runtime/OMInstrument.c b/src/Runtime/OMInstrument.c
index 8e30fb8..397f6c9 100644
--- a/src/Runtime/OMInstrument.c
+++ b/src/Runtime/OMInstrument.c
@@ -193,7 +193,12 @@ static void ReportMemory() {
     psErrorCount++;
     return;
   }
-  (void)fgets(memOutput, 200, memPipe);
+  if (!fgets(memOutput, 200, memPipe)) {
+    fprintf(instrumentFout, ", error-no-output-from-pipe\n");
+    psErrorCount++;
+    pclose(memPipe);
+    return;
+  }
   (void)fgetc(memPipe);
   memOutput[strcspn(memOutput, "\n")] = 0;
   if (!feof(memPipe)) {
-- 
2.43.0


From e2441d96022a592512f5306f8ee29f8f027a08e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:32 +0000
Subject: [PATCH 07/90] fix: clear the constant address when reading the
 constant file fails

The freed buffer stayed in constAddr, so that the next load reported success.
---
 src/Runtime/OMExternalConstant.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Runtime/OMExternalConstant.c b/src/Runtime/OMExternalConstant.c
index 02cfbce..a3e4a05 100644
--- a/src/Runtime/OMExternalConstant.c
+++ b/src/Runtime/OMExternalConstant.c
@@ -228,6 +228,7 @@ static int mallocAndReadFile(void **constAddr, int fd, int64_t fileSize) {
         fprintf(stderr, "Error reading constants at offset %lld: %s\n",
             (long long)(offset + totalRead), strerror(errno));
         free(constAddr[0]);
+        constAddr[0] = NULL;
         return 1;
       }
 
@@ -235,6 +236,7 @@ static int mallocAndReadFile(void **constAddr, int fd, int64_t fileSize) {
         fprintf(stderr, "Unexpected EOF reading constants at offset %lld\n",
             (long long)(offset + totalRead));
         free(constAddr[0]);
+        constAddr[0] = NULL;
         return 1;
       }
 
-- 
2.43.0


From 8d9078ae2c1a545516606c0bfc5bf58a980d32d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:32 +0000
Subject: [PATCH 08/90] fix: clear the constant address when unloading
 constants

A second unload released the same memory again and a later load found the
stale address and loaded nothing.
---
 src/Runtime/OMExternalConstant.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Runtime/OMExternalConstant.c b/src/Runtime/OMExternalConstant.c
index a3e4a05..e917df4 100644
--- a/src/Runtime/OMExternalConstant.c
+++ b/src/Runtime/OMExternalConstant.c
@@ -189,6 +189,7 @@ bool omUnloadConstantData(void **constAddr, int64_t size) {
 #else
   munmap(ptr, size);
 #endif
+  constAddr[0] = NULL;
   return true;
 }
 
-- 
2.43.0


From 1b15980408b75186d39ad7aac4d6f2757c7d01ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:32 +0000
Subject: [PATCH 09/90] fix: reject constant files that are too short

Mapping a truncated file succeeded, and the model crashed with SIGBUS when it
used the missing constants.
---
 src/Runtime/OMExternalConstant.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Runtime/OMExternalConstant.c b/src/Runtime/OMExternalConstant.c
index e917df4..ac32076 100644
--- a/src/Runtime/OMExternalConstant.c
+++ b/src/Runtime/OMExternalConstant.c
@@ -262,6 +262,18 @@ static int mallocAndReadFile(void **constAddr, int fd, int64_t fileSize) {
 /// This function is thread-safe.
 ///
 static int mmapAndReadFile(void **constAddr, int fd, int64_t fileSize) {
+  // Mapping beyond the end of the file succeeds, but accessing it does not.
+  struct stat fileStat;
+  if (fstat(fd, &fileStat) != 0) {
+    fprintf(stderr, "Error while reading the file size: %s\n", strerror(errno));
+    return 1;
+  }
+  if (fileStat.st_size < fileSize) {
+    fprintf(stderr, "Constant file has %lld bytes, but %lld are expected\n",
+        (long long)fileStat.st_size, (long long)fileSize);
+    return 1;
+  }
+
 #ifdef __MVS__
   void *tempAddr = mmap(0, fileSize, PROT_READ, __MAP_MEGA, fd, 0);
 #else
-- 
2.43.0


From 784e02632010aad31e09bcd2f8c6bb07fa14f69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:55 +0000
Subject: [PATCH 10/90] fix: compute the strides of a tensor of rank 0

---
 src/Runtime/OMTensor.inc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Runtime/OMTensor.inc b/src/Runtime/OMTensor.inc
index 04bf16c..02c340f 100644
--- a/src/Runtime/OMTensor.inc
+++ b/src/Runtime/OMTensor.inc
@@ -749,6 +749,9 @@ static inline std::vector<std::vector<int64_t>> CartProduct(
 /* Helper function to compute data strides from a size array */
 static inline std::vector<int64_t> computeStridesFromShape(
     const int64_t *dataSizes, int rank) {
+  // A scalar has no strides.
+  if (rank == 0)
+    return {};
   std::vector<int64_t> sizesVec(dataSizes + 1, dataSizes + rank);
   sizesVec.push_back(1);
   std::vector<int64_t> dimStrides(rank);
-- 
2.43.0


From 794e15b1417ec676012bf65634d4992f82ca5fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:55 +0000
Subject: [PATCH 11/90] fix: release the generated tensors when their list
 cannot be created

---
 src/Runtime/OMTensorListHelper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Runtime/OMTensorListHelper.cpp b/src/Runtime/OMTensorListHelper.cpp
index 6c6fbd9..7cfc6b7 100644
--- a/src/Runtime/OMTensorListHelper.cpp
+++ b/src/Runtime/OMTensorListHelper.cpp
@@ -560,6 +560,8 @@ OMTensorList *omTensorListCreateFromInputSignature(
   }
 
   OMTensorList *list = omTensorListCreate(inputTensors, inputNum);
+  if (!list)
+    return abortWithCleanup(inputNum);
   free(inputTensors);
   return list;
 }
-- 
2.43.0


From a609639c9fc84a5f7c05fb1536fd953e7c3c2c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:55 +0000
Subject: [PATCH 12/90] fix: do not read an uninitialised type for a signature
 entry without one

---
 src/Runtime/OMTensorListHelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Runtime/OMTensorListHelper.cpp b/src/Runtime/OMTensorListHelper.cpp
index 7cfc6b7..39b7768 100644
--- a/src/Runtime/OMTensorListHelper.cpp
+++ b/src/Runtime/OMTensorListHelper.cpp
@@ -272,7 +272,7 @@ static OM_DATA_TYPE typeStringToOMDataType(const std::string &typeStr) {
 }
 
 struct SigEntry {
-  OM_DATA_TYPE type;
+  OM_DATA_TYPE type = ONNX_TYPE_UNDEFINED;
   std::vector<int64_t> dims;
 };
 
-- 
2.43.0


From d054bd7ff592c3fc64d5328e3faa3f5e059f5e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:55 +0000
Subject: [PATCH 13/90] fix: reject a lower bound above the upper bound when
 generating inputs

---
 src/Runtime/OMTensorListHelper.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Runtime/OMTensorListHelper.cpp b/src/Runtime/OMTensorListHelper.cpp
index 39b7768..a243c07 100644
--- a/src/Runtime/OMTensorListHelper.cpp
+++ b/src/Runtime/OMTensorListHelper.cpp
@@ -534,6 +534,13 @@ OMTensorList *omTensorListCreateFromInputSignature(
     }
     double lo = vspec.hasMin ? vspec.minVal : lb[entry.type];
     double hi = vspec.hasMax ? vspec.maxVal : ub[entry.type];
+    if (!vspec.hasSoz && lo > hi) {
+      fprintf(stderr,
+          "omTensorListCreateFromInputSignature: tensor %d: lower bound %g is "
+          "larger than upper bound %g.\n",
+          i, lo, hi);
+      return abortWithCleanup(i);
+    }
     if (vspec.hasSoz)
       tensor = omTensorCreateSozData(entry.dims, entry.type, vspec.sozCount);
     else
-- 
2.43.0


From b8c56f18bc425ecf98f153f1c4b5f0d3c420f901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:55 +0000
Subject: [PATCH 14/90] fix: honour bounds beyond the signed range for unsigned
 random data

---
 src/Runtime/OMTensorHelper.cpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/Runtime/OMTensorHelper.cpp b/src/Runtime/OMTensorHelper.cpp
index 2e91679..27e9c31 100644
--- a/src/Runtime/OMTensorHelper.cpp
+++ b/src/Runtime/OMTensorHelper.cpp
@@ -61,17 +61,12 @@ static void fillBufferWithRandom(T *buf, int64_t n, T lbound, T ubound) {
     return;
   }
   if constexpr (std::is_integral<T>::value) {
-    if constexpr (sizeof(T) <= 4) {
-      std::uniform_int_distribution<int32_t> dis(
-          static_cast<int32_t>(lbound), static_cast<int32_t>(ubound));
-      std::generate(buf, buf + n,
-          [&]() { return static_cast<T>(dis(omRandomGenerator)); });
-    } else {
-      std::uniform_int_distribution<int64_t> dis(
-          static_cast<int64_t>(lbound), static_cast<int64_t>(ubound));
-      std::generate(buf, buf + n,
-          [&]() { return static_cast<T>(dis(omRandomGenerator)); });
-    }
+    // Use a type that represents all the values of T.
+    using DistT = std::conditional_t<sizeof(T) < 4, int32_t, T>;
+    std::uniform_int_distribution<DistT> dis(
+        static_cast<DistT>(lbound), static_cast<DistT>(ubound));
+    std::generate(buf, buf + n,
+        [&]() { return static_cast<T>(dis(omRandomGenerator)); });
   } else {
     std::uniform_real_distribution<T> dis(lbound, ubound);
     std::generate(buf, buf + n, [&]() { return dis(omRandomGenerator); });
-- 
2.43.0


From 92764232daedbd5f57a46905a5f2933cb3fbec08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:55 +0000
Subject: [PATCH 15/90] fix: do not write ones into rows without elements

---
 src/Runtime/OMTensorHelper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Runtime/OMTensorHelper.cpp b/src/Runtime/OMTensorHelper.cpp
index 27e9c31..80041e7 100644
--- a/src/Runtime/OMTensorHelper.cpp
+++ b/src/Runtime/OMTensorHelper.cpp
@@ -241,7 +241,8 @@ OMTensor *omTensorCreateSozData(
   };
 
   for (int64_t row = 0; row < numRows; ++row) {
-    int64_t n = (sozCount < 0) ? dist(omRandomGenerator) : fixedN;
+    int64_t n = (sozCount < 0) ? std::min(dist(omRandomGenerator), innerDim)
+                               : fixedN;
     char *rowPtr = (char *)buf + row * innerDim * elemSize;
     switch (omType) {
     case ONNX_TYPE_BOOL:
-- 
2.43.0


From 19d177a55d364c6e6bbae4f1ddca51de2eb7d5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:55 +0000
Subject: [PATCH 16/90] fix: use a random seed when debug inputs are requested
 without one

---
 src/Runtime/ExecutionSession.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Runtime/ExecutionSession.cpp b/src/Runtime/ExecutionSession.cpp
index 7bbc8bf..07316a0 100644
--- a/src/Runtime/ExecutionSession.cpp
+++ b/src/Runtime/ExecutionSession.cpp
@@ -538,8 +538,9 @@ OMTensorList *ExecutionSession::runDebug(
 OMTensorList *ExecutionSession::fillInputDebug(const char *shapeInfo,
     const char *valueInfo, const char *defaultLowerBound,
     const char *defaultUpperBound, int seed, bool verbose) {
-  if (seed >= 0)
-    omDefineSeed((unsigned int)seed, /*hasSeedValue=*/1);
+  // Without a seed, draw a new one: a seed defined by an earlier call must not
+  // decide the data of this call.
+  omDefineSeed((unsigned int)seed, /*hasSeedValue=*/seed >= 0);
   OMTensorList *inputs =
       omTensorListCreateFromInputSignature(inputSignature().c_str(), shapeInfo,
           valueInfo, defaultLowerBound, defaultUpperBound, verbose);
-- 
2.43.0


From b8bf42c1a197194d0b732baa4837271b257fcd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:55 +0000
Subject: [PATCH 17/90] fix: use the seed of double precision random normal
 values

---
 src/Runtime/OMRandomNormal.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Runtime/OMRandomNormal.c b/src/Runtime/OMRandomNormal.c
index 4243bcd..95441c1 100644
--- a/src/Runtime/OMRandomNormal.c
+++ b/src/Runtime/OMRandomNormal.c
@@ -28,6 +28,7 @@ double normalRandom() {
 
 void get_random_normal_value_f64(
     double *result, long long size, double mean, double scale, double seed) {
+  srand(seed);
   for (long long index = 0; index < size; ++index)
     result[index] = normalRandom() * scale + mean;
 }
-- 
2.43.0


From d6722a1ba47c077d983487cc5ae9057dbea6cb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:35 +0000
Subject: [PATCH 18/90] fix: report interrupted waits and failed redirections
 of commands, keep the child off the parent's state

---
 src/Compiler/Command.cpp | 58 ++++++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 20 deletions(-)

diff --git a/src/Compiler/Command.cpp b/src/Compiler/Command.cpp
index 88b5155..a99fcd7 100644
--- a/src/Compiler/Command.cpp
+++ b/src/Compiler/Command.cpp
@@ -14,6 +14,7 @@
 #include "src/Compiler/Command.hpp"
 #include "src/Compiler/CommandUtils.hpp"
 
+#include <cerrno>
 #include <filesystem>
 #include <sstream>
 
@@ -130,19 +131,30 @@ int Command::exec(const std::string &wdir) {
     newWdir = getAbsolutePathUsingCurrentDir(wdir);
   else
     newWdir = curWdir;
+  const std::string newWdirName = newWdir.string();
+
+#ifndef _WIN32
+  // Prepare arguments array (NULL-terminated for execvp). Done before changing
+  // directory, as nothing between here and restoring the directory may throw.
+  std::vector<char *> execArgs;
+  execArgs.reserve(args.size() + 1);
+  for (auto &arg : args) {
+    execArgs.push_back(const_cast<char *>(arg.c_str()));
+  }
+  execArgs.push_back(nullptr);
+#endif
 
   // Change directory if requested.
   if (requestedNewDir) {
     try {
       fs::current_path(newWdir);
     } catch (const fs::filesystem_error &e) {
-      throw CommandException(
-          "Failed to change directory to: " + newWdir.string());
+      throw CommandException("Failed to change directory to: " + newWdirName);
     }
   }
   // Print command if verbose.
   if (verbose)
-    print(stdout, newWdir.string());
+    print(stdout, newWdirName);
 
 #ifdef _WIN32
   // Windows implementation using CreateProcess.
@@ -210,14 +222,6 @@ int Command::exec(const std::string &wdir) {
 #else
   // Unix/Linux implementation using fork/exec.
 
-  // Prepare arguments array (NULL-terminated for execvp).
-  std::vector<char *> execArgs;
-  execArgs.reserve(args.size() + 1);
-  for (auto &arg : args) {
-    execArgs.push_back(const_cast<char *>(arg.c_str()));
-  }
-  execArgs.push_back(nullptr);
-
   // Fork and execute.
   pid_t pid = fork();
   if (pid == -1) {
@@ -227,12 +231,20 @@ int Command::exec(const std::string &wdir) {
   }
 
   if (pid == 0) {
-    // Child process.
+    // Child process. It must end with _exit, as exit would run the handlers and
+    // flush the buffered output of the parent a second time.
     if (!stdFilename.empty()) {
       int fd = open(stdFilename.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
-      dup2(fd, STDOUT_FILENO); // Redirect stdout.
-      dup2(fd, STDERR_FILENO); // Redirect stderr.
-      close(fd);
+      // Redirect stdout and stderr.
+      if (fd == -1 || dup2(fd, STDOUT_FILENO) == -1 ||
+          dup2(fd, STDERR_FILENO) == -1) {
+        fprintf(stderr, "Failed in Command to redirect output to '%s'\n",
+            stdFilename.c_str());
+        _exit(onnx_mlir::CommandExecutionFailed);
+      }
+      // The file may have been opened as one of the standard streams.
+      if (fd > STDERR_FILENO)
+        close(fd);
     }
     errno = 0;
     execvp(path.c_str(), execArgs.data());
@@ -249,17 +261,20 @@ int Command::exec(const std::string &wdir) {
     switch (err) {
     case ENOENT:
       // Install and/or set PATH environemnt variable.
-      exit(onnx_mlir::CommandNotFound);
+      _exit(onnx_mlir::CommandNotFound);
     case EACCES:
-      exit(onnx_mlir::CommandNotExecutable);
+      _exit(onnx_mlir::CommandNotExecutable);
     default:
-      exit(onnx_mlir::CommandExecutionFailed);
+      _exit(onnx_mlir::CommandExecutionFailed);
     }
   }
 
   // Parent process.
-  int status;
-  waitpid(pid, &status, 0);
+  int status = 0;
+  pid_t waited;
+  do {
+    waited = waitpid(pid, &status, 0);
+  } while (waited == -1 && errno == EINTR);
 
   // Restore working directory.
   if (requestedNewDir) {
@@ -270,6 +285,9 @@ int Command::exec(const std::string &wdir) {
     }
   }
 
+  if (waited == -1)
+    throw CommandException("Could not wait for command '" + path + "'");
+
   // Check how the child process terminated.
   if (WIFEXITED(status)) {
     // Process exited normally.
-- 
2.43.0


From 3bccf5e7312c19ba747379f76fa71403bea174b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:09 +0000
Subject: [PATCH 19/90] fix: do not take options starting with -o for the
 output option

---
 src/Compiler/CommandUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Compiler/CommandUtils.cpp b/src/Compiler/CommandUtils.cpp
index 15c2b03..1dd400e 100644
--- a/src/Compiler/CommandUtils.cpp
+++ b/src/Compiler/CommandUtils.cpp
@@ -90,7 +90,7 @@ static std::string getOutputBasenameFromFlags(
       } else
         fprintf(
             stderr, "Parsing `-o=` option, expected a name. Use default.\n");
-    } else if (flagVect[i].find("-o") == 0) {
+    } else if (flagVect[i] == "-o") {
       if (i < num - 1) {
         return flagVect[i + 1];
         break;
-- 
2.43.0


From 68374d729c7af2c643040cea442b5f3a82f4ff31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:09 +0000
Subject: [PATCH 20/90] fix: look for the constants file beside the output file

---
 src/Compiler/OMCompile.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Compiler/OMCompile.cpp b/src/Compiler/OMCompile.cpp
index f7b30bb..0a90d34 100644
--- a/src/Compiler/OMCompile.cpp
+++ b/src/Compiler/OMCompile.cpp
@@ -673,14 +673,14 @@ void OMCompile::compile(const std::string &modelPath, const std::string &flags,
         outputFilename);
   }
 
-  successfullyCompiled = true;
-
-  // Check for constant file (shared logic).
-  std::string constFilename = fs::path(outputFilename).stem().string();
-  constFilename += ".constants.bin";
+  // Check for constant file, beside the output file (shared logic).
+  std::string constFilename =
+      fs::path(outputFilename).replace_extension(".constants.bin").string();
   if (fs::exists(constFilename))
     outputConstantFilename = constFilename;
 
+  successfullyCompiled = true;
+
   if (verbose)
     std::cout << "Compilation successful. Output: " << outputFilename
               << std::endl;
-- 
2.43.0


From 51d6087b8fa9519e3ee55d754c0c7cacca871f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:09 +0000
Subject: [PATCH 21/90] fix: predict the output file name when the model is
 given in the flags

---
 src/Compiler/OMCompile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Compiler/OMCompile.cpp b/src/Compiler/OMCompile.cpp
index 0a90d34..b435f9b 100644
--- a/src/Compiler/OMCompile.cpp
+++ b/src/Compiler/OMCompile.cpp
@@ -764,8 +764,9 @@ std::string OMCompile::getContainerEngineName() const {
     const std::string &modelPath, const std::string &flags,
     const std::string &outputPath) {
   std::vector<std::string> flagVect = parseFlags(flags);
+  std::string inputFilename = onnx_mlir::getInputFilename(modelPath, flagVect);
   // Apply the output path as needed.
-  onnx_mlir::applyOutputPath(flagVect, outputPath, modelPath);
+  onnx_mlir::applyOutputPath(flagVect, outputPath, inputFilename);
   // Success, save filename of output, using an absolute path to increase
   // success of dlopen calls.
   std::string name = onnx_mlir::getOutputFilename(modelPath, flagVect);
-- 
2.43.0


From a472c6cc775fdc659d5165f79b33ab0daafc7476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:09 +0000
Subject: [PATCH 22/90] fix: detect container images that are not available

---
 src/Compiler/OMCompile.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Compiler/OMCompile.cpp b/src/Compiler/OMCompile.cpp
index b435f9b..2789d87 100644
--- a/src/Compiler/OMCompile.cpp
+++ b/src/Compiler/OMCompile.cpp
@@ -158,8 +158,11 @@ bool ContainerSupport::isImageAvailable(
     const std::string &engineName, const std::string &imageName) {
   try {
     Command imageCheck(engineName, verbose);
-    imageCheck.appendStr("images");
-    imageCheck.appendStr("-q");
+    // Note that `images -q` succeeds even if there is no such image.
+    imageCheck.appendStr("image");
+    imageCheck.appendStr("inspect");
+    imageCheck.appendStr("--format");
+    imageCheck.appendStr("{{.Id}}");
     imageCheck.appendStr(imageName);
     return imageCheck.exec() == 0;
   } catch (...) {
-- 
2.43.0


From 74f60060f96ce3021fabb23de3f9e7d9ca7dd8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:09 +0000
Subject: [PATCH 23/90] fix: compare whole path components with the host path
 prefix

---
 src/Compiler/OMCompile.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Compiler/OMCompile.cpp b/src/Compiler/OMCompile.cpp
index 2789d87..76edc54 100644
--- a/src/Compiler/OMCompile.cpp
+++ b/src/Compiler/OMCompile.cpp
@@ -309,7 +309,10 @@ std::string ContainerSupport::resolveHostPath(
   if (hostPrefix && std::strlen(hostPrefix) > 0) {
     std::string prefix(hostPrefix);
 
-    if (pathStr.find(prefix) == 0) {
+    while (prefix.length() > 1 && prefix.back() == '/')
+      prefix.pop_back();
+    if (pathStr.find(prefix) == 0 && (pathStr.length() == prefix.length() ||
+                                         pathStr[prefix.length()] == '/')) {
       if (verbose)
         std::cout << "Path already has host prefix: " << pathStr << std::endl;
       return pathStr;
-- 
2.43.0


From 33dbeb081b14c5cf3f6d76295b38dac18b2cc096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:09 +0000
Subject: [PATCH 24/90] fix: quote the arguments of the compiler in a container

---
 src/Compiler/OMCompile.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/Compiler/OMCompile.cpp b/src/Compiler/OMCompile.cpp
index 76edc54..2aa7eef 100644
--- a/src/Compiler/OMCompile.cpp
+++ b/src/Compiler/OMCompile.cpp
@@ -333,6 +333,18 @@ std::string ContainerSupport::resolveHostPath(
   return pathStr;
 }
 
+// Quote a string as a single word for sh.
+std::string quoteForShell(const std::string &str) {
+  std::string quoted = "'";
+  for (char c : str) {
+    if (c == '\'')
+      quoted += "'\\''";
+    else
+      quoted += c;
+  }
+  return quoted + "'";
+}
+
 } // anonymous namespace
 
 namespace onnx_mlir {
@@ -510,21 +522,13 @@ std::unique_ptr<Command> OMCompile::createContainerCompileCommand(
   cmdStream << compilerPathInContainer;
 
   // Add flags.
-  for (const auto &flag : flagVect) {
-    // Escape any quotes in the flag.
-    std::string escapedFlag = flag;
-    size_t pos = 0;
-    while ((pos = escapedFlag.find('"', pos)) != std::string::npos) {
-      escapedFlag.insert(pos, "\\");
-      pos += 2;
-    }
-    cmdStream << " " << escapedFlag;
-  }
+  for (const auto &flag : flagVect)
+    cmdStream << " " << quoteForShell(flag);
 
   // Add input file (using container path - same as modelDir).
   std::string containerInputPath =
       (fs::path(modelDir) / fs::path(inputFilename).filename()).string();
-  cmdStream << " " << containerInputPath;
+  cmdStream << " " << quoteForShell(containerInputPath);
 
   std::string containerCmd = cmdStream.str();
 
-- 
2.43.0


From 40761c41f54fdf751cb94086c710f78598b0879e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:09 +0000
Subject: [PATCH 25/90] fix: give the model only once to the compiler in a
 container

---
 src/Compiler/OMCompile.cpp | 18 +++++++++++-------
 src/Compiler/OMCompile.hpp |  2 +-
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/Compiler/OMCompile.cpp b/src/Compiler/OMCompile.cpp
index 2aa7eef..db19b6d 100644
--- a/src/Compiler/OMCompile.cpp
+++ b/src/Compiler/OMCompile.cpp
@@ -497,8 +497,9 @@ std::unique_ptr<Command> OMCompile::createLocalCompileCommand(
 }
 
 std::unique_ptr<Command> OMCompile::createContainerCompileCommand(
-    const std::vector<std::string> &flagVect, const std::string &inputFilename,
-    const std::string &modelDir, const std::string &outputDir) {
+    const std::string &modelPath, const std::vector<std::string> &flagVect,
+    const std::string &inputFilename, const std::string &modelDir,
+    const std::string &outputDir) {
 
   // Container Mode: Docker/Podman run with volume mounts.
   // Note: When running in Docker-in-Docker (DinD), paths are automatically
@@ -525,10 +526,13 @@ std::unique_ptr<Command> OMCompile::createContainerCompileCommand(
   for (const auto &flag : flagVect)
     cmdStream << " " << quoteForShell(flag);
 
-  // Add input file (using container path - same as modelDir).
-  std::string containerInputPath =
-      (fs::path(modelDir) / fs::path(inputFilename).filename()).string();
-  cmdStream << " " << quoteForShell(containerInputPath);
+  // Add input file (using container path - same as modelDir), unless it is
+  // already among the flags.
+  if (!modelPath.empty()) {
+    std::string containerInputPath =
+        (fs::path(modelDir) / fs::path(inputFilename).filename()).string();
+    cmdStream << " " << quoteForShell(containerInputPath);
+  }
 
   std::string containerCmd = cmdStream.str();
 
@@ -641,7 +645,7 @@ void OMCompile::compile(const std::string &modelPath, const std::string &flags,
     cmd = std::move(localCmd);
   } else {
     cmd = createContainerCompileCommand(
-        flagVect, inputFilename, modelDir, outputDir);
+        modelPath, flagVect, inputFilename, modelDir, outputDir);
   }
 
   // Redirect logs if specified (shared logic).
diff --git a/src/Compiler/OMCompile.hpp b/src/Compiler/OMCompile.hpp
index c1ae2c7..bea1b1f 100644
--- a/src/Compiler/OMCompile.hpp
+++ b/src/Compiler/OMCompile.hpp
@@ -402,7 +402,7 @@ private:
       const std::string &inputFilename);
 
   std::unique_ptr<Command> createContainerCompileCommand(
-      const std::vector<std::string> &flagVect,
+      const std::string &modelPath, const std::vector<std::string> &flagVect,
       const std::string &inputFilename, const std::string &modelDir,
       const std::string &outputDir);
 };
-- 
2.43.0


From a43140361b79ad53d1adaf3c3be099c9fb4589d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:09 +0000
Subject: [PATCH 26/90] fix: use the current directory for relative paths in a
 container

---
 src/Compiler/OMCompile.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Compiler/OMCompile.cpp b/src/Compiler/OMCompile.cpp
index db19b6d..3bce8c4 100644
--- a/src/Compiler/OMCompile.cpp
+++ b/src/Compiler/OMCompile.cpp
@@ -566,6 +566,10 @@ std::unique_ptr<Command> OMCompile::createContainerCompileCommand(
     cmd->appendStr(hostOutputDir + ":" + outputDir + ":rw");
   }
 
+  // Relative paths in the flags are relative to the current directory.
+  cmd->appendStr("-w");
+  cmd->appendStr(fs::current_path().string());
+
   // Specify the image.
   cmd->appendStr(containerImage);
 
-- 
2.43.0


From 7d85d2d8ac23d4a627a23207a81eea0d7fc4e25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:39 +0000
Subject: [PATCH 27/90] fix: forget the previous result before anything of a
 compilation can fail

---
 src/Compiler/OMCompile.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Compiler/OMCompile.cpp b/src/Compiler/OMCompile.cpp
index 3bce8c4..6ca638d 100644
--- a/src/Compiler/OMCompile.cpp
+++ b/src/Compiler/OMCompile.cpp
@@ -588,6 +588,11 @@ void OMCompile::compile(const std::string &modelPath, const std::string &flags,
     const std::string &outputPath, const std::string &compilerPath,
     const std::string &logFilename) {
 
+  // Initialize state.
+  successfullyCompiled = false;
+  outputFilename = {};
+  outputConstantFilename = {};
+
   // Handle legacy compilerPath parameter for backward compatibility.
   // In local mode, if compilerPath is provided, it overrides the constructor
   // path.
@@ -601,11 +606,6 @@ void OMCompile::compile(const std::string &modelPath, const std::string &flags,
         "Compiler not properly initialized. Constructor may have failed.");
   }
 
-  // Initialize state.
-  successfullyCompiled = false;
-  outputFilename = {};
-  outputConstantFilename = {};
-
   // Parse flags and determine input/output files (shared logic).
   flagVect = parseFlags(flags);
   std::string inputFilename = onnx_mlir::getInputFilename(modelPath, flagVect);
-- 
2.43.0


From 79a86c588811d1a7c811219d8e73a0811b36b9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:39 +0000
Subject: [PATCH 28/90] fix: do not lose parts of the container command when
 memory runs out

---
 src/Compiler/OMCompile.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/Compiler/OMCompile.cpp b/src/Compiler/OMCompile.cpp
index 6ca638d..7fdacee 100644
--- a/src/Compiler/OMCompile.cpp
+++ b/src/Compiler/OMCompile.cpp
@@ -23,7 +23,6 @@
 #include <filesystem>
 #include <fstream>
 #include <iostream>
-#include <sstream>
 #include <unistd.h>
 
 #include "src/Compiler/Command.hpp"
@@ -519,23 +518,21 @@ std::unique_ptr<Command> OMCompile::createContainerCompileCommand(
   }
 
   // Build the compiler command string that will run inside the container.
-  std::ostringstream cmdStream;
-  cmdStream << compilerPathInContainer;
+  // Not with a stream, which would silently drop text when memory runs out.
+  std::string containerCmd = compilerPathInContainer;
 
   // Add flags.
   for (const auto &flag : flagVect)
-    cmdStream << " " << quoteForShell(flag);
+    containerCmd += " " + quoteForShell(flag);
 
   // Add input file (using container path - same as modelDir), unless it is
   // already among the flags.
   if (!modelPath.empty()) {
     std::string containerInputPath =
         (fs::path(modelDir) / fs::path(inputFilename).filename()).string();
-    cmdStream << " " << quoteForShell(containerInputPath);
+    containerCmd += " " + quoteForShell(containerInputPath);
   }
 
-  std::string containerCmd = cmdStream.str();
-
   if (verbose) {
     std::cout << "Container compilation with image: " << containerImage
               << std::endl;
-- 
2.43.0


From 94dec8762cc939ab289e43e39b5f92694fa021fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:11 +0000
Subject: [PATCH 29/90] fix: evict the least recently used session and keep the
 session cache within its capacity

---
 .../src/torch_onnxmlir/sessioncache.py            | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py b/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py
index 054d73e..e7eff5b 100644
--- a/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py
+++ b/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py
@@ -71,10 +71,15 @@ class SessionCache:
             self.put(key, cache_value, False)
         return cache_value
 
-    # The put is assumed to be called after victim()
+    # Store an entry as the most recently used one. If the cache is full, the
+    # least recently used entries are removed first.
     def put(self, key, value: CacheValue, write_to_disk=True):
-        self.cache[key] = value
-        self.access_order.append(key)
+        self.remove(key)
+        while self.cache and len(self.cache) >= self.capacity:
+            self.victim()
+        if self.capacity > 0:
+            self.cache[key] = value
+            self.access_order.append(key)
         if len(self.cache) != len(self.access_order):
             print("Error: the len of cache and access_order doesnot match")
         if write_to_disk:
@@ -160,8 +165,8 @@ class SessionCache:
     # If the cache is not full, get the next free entry.
     # If the cache is full, delete the oldest key and return its index.
     def victim(self):
-        if len(self.cache) >= self.capacity:
-            oldest_key = self.access_order.pop()
+        if self.cache and len(self.cache) >= self.capacity:
+            oldest_key = self.access_order.pop(0)
             cache_value = self.cache[oldest_key]
             del self.cache[oldest_key]
             return cache_value.tag
-- 
2.43.0


From cc4197eb79a2aabde813b2ff794841322f1b94c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:37 +0000
Subject: [PATCH 30/90] fix: store a compiled model in the disk cache so that a
 crash leaves it complete or absent

---
 .../src/torch_onnxmlir/sessioncache.py        | 116 ++++++++++--------
 1 file changed, 64 insertions(+), 52 deletions(-)

diff --git a/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py b/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py
index e7eff5b..b3a7c75 100644
--- a/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py
+++ b/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py
@@ -12,6 +12,7 @@
 
 import os
 import json
+import logging
 import shutil
 from pathlib import Path
 from dataclasses import dataclass
@@ -19,6 +20,8 @@ from typing import Any
 
 from om_pyrt import InferenceSession
 
+logger = logging.getLogger(__name__)
+
 # This file stored information about the backend, for example, indices of example inputs to restore a cached session.
 OM_BACKEND_CONFIG_FILE = "om_backend_config.json"
 # These are extensions of onnx files generated by torch.onnx.export.
@@ -85,36 +88,31 @@ class SessionCache:
         if write_to_disk:
             self.write_to_disk(key, value)
 
-    # Load data from disk into a CacheValue. If data is not found, return None.
+    # Load data from disk into a CacheValue. If data is not found or is not
+    # usable, return None.
     def load_from_disk(self, key):
-        # Find a folder whose name is key and load data from that folder into a CacheValue.
-        for _, dirnames, _ in os.walk(self.cache_path):
-            if key not in dirnames:
-                continue
-            model_dir = os.path.join(self.cache_path, key)
-            # Create an inference session.
-            model_so = os.path.join(model_dir, f"model{key}.so")
-            if Path(model_so).exists():
-                sess = InferenceSession(model_so, tag=key)
-            else:
-                return None
+        model_dir = os.path.join(self.cache_path, key)
+        # The library is written last, so an entry without it is not complete.
+        model_so = os.path.join(model_dir, f"model{key}.so")
+        if not Path(model_so).exists():
+            return None
+        try:
             # Load config file.
             config_file = os.path.join(model_dir, OM_BACKEND_CONFIG_FILE)
-            try:
-                with open(config_file, "r") as f:
-                    config = json.load(f)
-            except FileNotFoundError:
-                config = {}
-            inputs_indices = config["example_inputs_indices"] if config else []
-
-            # Construct a cache value.
-            cache_value = CacheValue(
-                tag=key,
-                sess=sess,
-                example_inputs_indices=inputs_indices,
-            )
-            return cache_value
-        return None
+            with open(config_file, "r") as f:
+                inputs_indices = json.load(f)["example_inputs_indices"]
+            # Create an inference session.
+            sess = InferenceSession(model_so, tag=key)
+        except Exception as e:
+            logger.info(f"Ignore the cached model in {model_dir}: {e}")
+            return None
+
+        # Construct a cache value.
+        return CacheValue(
+            tag=key,
+            sess=sess,
+            example_inputs_indices=inputs_indices,
+        )
 
     # Write an onnx model into a folder whose name is key.
     def write_onnx_to_disk(self, key, src_dir):
@@ -134,32 +132,46 @@ class SessionCache:
         # Cache folder: create if it does not exist.
         dst_dir = os.path.join(self.cache_path, key)
         os.makedirs(dst_dir, exist_ok=True)
-        # Write the compiled model (.so file).
-        compiled_model = value.sess.get_shared_lib_path()
-        src_dir = Path(compiled_model).resolve().parent
-        for filename in os.listdir(src_dir):
-            if not filename.lower().endswith(tuple(OM_COMPILED_FILE_EXTS)):
-                continue
-            src_file = os.path.join(src_dir, filename)
-            dst_file = os.path.join(dst_dir, filename)
-            if os.path.isfile(src_file):
-                shutil.copy2(src_file, dst_file)
+        compiled_model = Path(value.sess.get_shared_lib_path()).resolve()
+        model_so = os.path.join(dst_dir, f"model{key}.so")
+        if os.path.exists(model_so):
+            # The session was loaded from this folder: it is already there.
+            if os.path.samefile(compiled_model, model_so):
+                return
+            # An entry is valid only if its library exists. Remove the library
+            # first and write it last, so that an interrupted write never leaves
+            # an entry that mixes files of different models.
+            os.remove(model_so)
+        # Write the constants file, if the model has one. The library refers to
+        # it by its name.
+        constants = compiled_model.with_suffix(".constants.bin")
+        dst_constants = os.path.join(dst_dir, constants.name)
+        if constants.is_file():
+            self.replace_file(constants, dst_constants)
+        elif os.path.exists(dst_constants):
+            os.remove(dst_constants)
         # Create a config json file.
-        example_inputs_indices = value.example_inputs_indices
-        if example_inputs_indices is not None:
-            config_file = os.path.join(dst_dir, OM_BACKEND_CONFIG_FILE)
-            json_data = json.dumps(
-                {
-                    "example_inputs_indices": example_inputs_indices,
-                    "compilation_info": value.sess.compilation_info(),
-                    "input_signature": value.sess.input_signature(),
-                    "output_signature": value.sess.output_signature(),
-                },
-                sort_keys=True,
-                indent=4,
-            )
-            with open(config_file, "w") as f:
-                f.write(json_data)
+        json_data = json.dumps(
+            {
+                "example_inputs_indices": value.example_inputs_indices,
+                "compilation_info": value.sess.compilation_info(),
+                "input_signature": value.sess.input_signature(),
+                "output_signature": value.sess.output_signature(),
+            },
+            sort_keys=True,
+            indent=4,
+        )
+        config_file = os.path.join(dst_dir, OM_BACKEND_CONFIG_FILE)
+        with open(config_file, "w") as f:
+            f.write(json_data)
+        # Write the compiled model (.so file).
+        self.replace_file(compiled_model, model_so)
+
+    # Copy a file so that the destination appears only once it is complete.
+    def replace_file(self, src_file, dst_file):
+        tmp_file = dst_file + ".tmp"
+        shutil.copy2(src_file, tmp_file)
+        os.replace(tmp_file, dst_file)
 
     # Find the index of the victim entry.
     # If the cache is not full, get the next free entry.
-- 
2.43.0


From eb7aaba7fc6cf6686c3222d462fd32123f70249f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:15 +0000
Subject: [PATCH 31/90] fix: include constants, names and structure of a graph
 in the session cache key

---
 .../src/torch_onnxmlir/backend.py             | 64 +++++++++++++------
 1 file changed, 43 insertions(+), 21 deletions(-)

diff --git a/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/backend.py b/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/backend.py
index 5b9a8a6..645ae81 100644
--- a/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/backend.py
+++ b/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/backend.py
@@ -200,6 +200,36 @@ class OMFxGraphHashDetails(FxGraphHashDetails):
         self.compile_options = compile_options
 
 
+# A string for an argument of a graph node, where nodes are given by their ids.
+def argument_to_str(arg, node_ids):
+    if isinstance(arg, torch.fx.Node):
+        return node_ids[arg]
+    if isinstance(arg, (list, tuple)):
+        return "(" + ",".join(argument_to_str(a, node_ids) for a in arg) + ")"
+    if isinstance(arg, dict):
+        return (
+            "{"
+            + ",".join(f"{k}:{argument_to_str(v, node_ids)}" for k, v in arg.items())
+            + "}"
+        )
+    if isinstance(arg, slice):
+        return "slice" + argument_to_str((arg.start, arg.stop, arg.step), node_ids)
+    return repr(arg)
+
+
+# A string for the value of a graph module's attribute, e.g. a parameter.
+def attribute_to_str(gm: torch.fx.GraphModule, target: str):
+    value = gm
+    for name in target.split("."):
+        value = getattr(value, name, None)
+    if isinstance(value, torch.Tensor):
+        samples = value.detach().reshape(-1)[: config.sample_parameter_values_limit]
+        return f"{tuple(value.shape)}_{value.dtype}_{samples.tolist()}"
+    if isinstance(value, torch.fx.GraphModule):
+        return value.code
+    return repr(value)
+
+
 def generate_hash_key(
     gm: torch.fx.GraphModule,
     example_inputs,
@@ -233,6 +263,7 @@ def generate_hash_key(
         placeholder_counter = 0
         dim_counter = 0
         dim_dict = {}
+        node_ids = {}
         for node in gm.graph.nodes:
             node_info = []
             # Use stable names for placeholders and symbolic dimensions.
@@ -262,27 +293,18 @@ def generate_hash_key(
                     node_info.append(f"om_placeholder_{placeholder_counter}")
                 placeholder_counter += 1
             else:
-                node_info.append(f"{node.op}_{torch.typename(node.target)}")
-                # Append information from input nodes.
-                for inode in node._input_nodes.keys():
-                    if inode.op == "get_attr":
-                        try:
-                            t = gm._parameters[inode.target]
-                        except KeyError:
-                            t = None
-                        if t is not None and isinstance(t, torch.nn.Parameter):
-                            sample_values = [
-                                str(s)
-                                for s in t.view(-1)[
-                                    : config.sample_parameter_values_limit
-                                ].tolist()
-                            ]
-                            sample_str = ".".join(sample_values)
-                        else:
-                            sample_str = "."
-                        node_info.append(f"{inode.name}.{sample_str}")
-                    else:
-                        node_info.append(f"{inode.name}")
+                target = node.target
+                if not isinstance(target, str):
+                    target = torch.typename(target)
+                node_info.append(f"{node.op}_{target}")
+                # Append the arguments: input nodes by their position in the
+                # graph, and constants by their values.
+                node_info.append(argument_to_str(node.args, node_ids))
+                node_info.append(argument_to_str(node.kwargs, node_ids))
+                # Append sample values of parameters and buffers.
+                if node.op == "get_attr":
+                    node_info.append(attribute_to_str(gm, node.target))
+            node_ids[node] = f"n{len(node_ids)}"
             graph_info.append(";".join(node_info))
         graph_str = " ".join(graph_info)
         graph_hash = sha256_hash(graph_str.encode())
-- 
2.43.0


From 8076e01390b5f466c77c775f0cffb62a751cc1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:15 +0000
Subject: [PATCH 32/90] fix: select the inputs of a cached session by the graph
 that is called

---
 .../python/torch_onnxmlir/src/torch_onnxmlir/backend.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/backend.py b/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/backend.py
index 645ae81..b3ba614 100644
--- a/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/backend.py
+++ b/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/backend.py
@@ -378,9 +378,9 @@ class TorchONNXMLIR:
 
         # Cache the rewritten graph module.
         assert self.cache_key, "cache key does not exist"
+        # The input indices are those of this graph: another graph with the same
+        # cache key may have had other unused inputs.
         self.cached_session = global_session_cache.get(self.cache_key)
-        if self.cached_session:
-            self.example_inputs_indices = self.cached_session.example_inputs_indices
         # Use "not None" to distinguish with [].
         assert self.example_inputs_indices is not None, "example_inputs_indices is None"
 
-- 
2.43.0


From fbe9ae1bdc5d8fb9ab3c13ab977b0556f0d4145c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:08 +0000
Subject: [PATCH 33/90] fix: do not evict a cached session for a model that
 cannot be compiled

---
 .../src/torch_onnxmlir/backend.py             | 28 ++++++++++---------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/backend.py b/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/backend.py
index b3ba614..53cbcd5 100644
--- a/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/backend.py
+++ b/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/backend.py
@@ -417,19 +417,6 @@ class TorchONNXMLIR:
 
             # When there is no cached compiled lib, export the torch model
             # to an onnx model and compile it to a .so file.
-            # Since the session is connected to a .so file, we have to make
-            # sure that .so file exists with cached session.
-            # The number of .onnx and .so files gradually increases.
-            # In the meantime, we want keep a limited number of temporary files
-            # for .onnx and .so file.
-            # The solution is to store the tag in the cache value.
-            # When a cache entry becomes a victim, the corresponding files,
-            # such as onnx model and .so are removed.
-            tag_id = global_session_cache.victim()
-
-            # Remove the old .onnx and .so files.
-            self.cleanup_onnxmlir_files(tag_id)
-
             # Export the graph module to onnx.
             # If failed, use the graph as it is without compilation.
             logger.info("Export the pytorch model to ONNX.")
@@ -471,6 +458,21 @@ class TorchONNXMLIR:
             # This session is cached for next use.
             sess = InferenceSession(compiled_model, tag=tag)
 
+            # Since the session is connected to a .so file, we have to make
+            # sure that .so file exists with cached session.
+            # The number of .onnx and .so files gradually increases.
+            # In the meantime, we want keep a limited number of temporary files
+            # for .onnx and .so file.
+            # The solution is to store the tag in the cache value.
+            # When a cache entry becomes a victim, the corresponding files,
+            # such as onnx model and .so are removed.
+            # This is done only once the new model is ready, so that a model which
+            # cannot be compiled does not remove others from the cache.
+            tag_id = global_session_cache.victim()
+
+            # Remove the old .onnx and .so files.
+            self.cleanup_onnxmlir_files(tag_id)
+
             # Replace the victim cache entry.
             cache_value = CacheValue(
                 tag=self.tag,
-- 
2.43.0


From 79ae7817ecba16f28603cf1908c581afbd1edc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:53 +0000
Subject: [PATCH 34/90] fix: log to stderr when the JNI log file cannot be
 opened

log_init falls back to stderr when get_log_file_by_name returns NULL, but the
latter asserted that fopen succeeded, so that an unwritable log file aborted
the process.
---
 src/Runtime/jni/jnilog.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Runtime/jni/jnilog.c b/src/Runtime/jni/jnilog.c
index 34e4d9d..db30024 100644
--- a/src/Runtime/jni/jnilog.c
+++ b/src/Runtime/jni/jnilog.c
@@ -250,7 +250,6 @@ static FILE *get_log_file_by_name(char *name) {
           tname, strlen(name) + 32, "%s.%016lx", name, *(unsigned long *)&tid);
       assert(num_chars_written >= 0); // Error: "snprintf write error to tname".
       fp = fopen(tname, "w");
-      assert(fp != NULL); // Error: "fopen error on tname".
       free(tname);
     }
   }
-- 
2.43.0


From a7f2d66422951d08d949393e3c7170bb42d3dda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:53 +0000
Subject: [PATCH 35/90] fix: end every JNI log message with a new line

A message that fills the buffer left no room for the new line, so that the next
message was appended to the same line.
---
 src/Runtime/jni/jnilog.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/Runtime/jni/jnilog.c b/src/Runtime/jni/jnilog.c
index db30024..39ac3f1 100644
--- a/src/Runtime/jni/jnilog.c
+++ b/src/Runtime/jni/jnilog.c
@@ -175,7 +175,7 @@ void log_printf(int level, const char *file, const char *func, int line,
    */
   pthread_t tid = get_threadid();
   assert(LOG_MAX_LEN >= strlen(buf) && "error in snprintf length");
-  num_chars_written = snprintf(buf + strlen(buf), LOG_MAX_LEN - strlen(buf),
+  num_chars_written = snprintf(buf + strlen(buf), LOG_MAX_LEN - 1 - strlen(buf),
       "[%016lx][%s]%s:%s:%d ", *(unsigned long *)&tid, log_level_name[level],
       get_filename(file), func, line);
   assert(num_chars_written >= 0); // Error: "snprintf write error to buf".
@@ -197,8 +197,9 @@ void log_printf(int level, const char *file, const char *func, int line,
 
     char buf[LOG_MAX_LEN];
 
-    And the vsnprintf will uses at most `LOG_MAX_LEN - strlen(buf)` bytes from
-    the buffer which starts at `buff + strlen(buf)`.
+    And the vsnprintf will uses at most `LOG_MAX_LEN - 1 - strlen(buf)` bytes
+    from the buffer which starts at `buff + strlen(buf)`. One byte is kept for
+    the new line added below.
 
     As an added security, we added an assert to make sure that quantity is
     positive.
@@ -207,8 +208,8 @@ void log_printf(int level, const char *file, const char *func, int line,
 
   va_list log_data;
   va_start(log_data, fmt);
-  num_chars_written =
-      vsnprintf(buf + strlen(buf), LOG_MAX_LEN - strlen(buf), fmt, log_data);
+  num_chars_written = vsnprintf(
+      buf + strlen(buf), LOG_MAX_LEN - 1 - strlen(buf), fmt, log_data);
   assert(num_chars_written >= 0); // Error: "vsnprintf write error to buf".
   va_end(log_data);
 
-- 
2.43.0


From 458332759ac51b1ed716bb1a793bb9361a522720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:53 +0000
Subject: [PATCH 36/90] fix: use thread-safe time conversion in JNI log

localtime returns a pointer to a buffer shared by all threads, so that messages
logged by several threads at a time could carry a wrong or garbled time.
---
 src/Runtime/jni/jnilog.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/Runtime/jni/jnilog.c b/src/Runtime/jni/jnilog.c
index 39ac3f1..5be72da 100644
--- a/src/Runtime/jni/jnilog.c
+++ b/src/Runtime/jni/jnilog.c
@@ -150,6 +150,15 @@ const char *get_filename(const char *path) {
   return &l1[1];
 }
 
+/* Convert time to local time without using a buffer shared among threads */
+INLINE int get_localtime(const time_t *now, struct tm *tm) {
+#if defined(_MSC_VER)
+  return localtime_s(tm, now) == 0;
+#else
+  return localtime_r(now, tm) != NULL;
+#endif
+}
+
 /* Generic log routine */
 void log_printf(int level, const char *file, const char *func, int line,
     const char *fmt, ...) {
@@ -158,13 +167,13 @@ void log_printf(int level, const char *file, const char *func, int line,
     return;
 
   time_t now;
-  struct tm *tm;
+  struct tm tm;
   char buf[LOG_MAX_LEN];
   int num_chars_written = 0;
 
   /* Get local time and format as 2020-07-03 05:17:42 -0400 */
-  if (time(&now) == -1 || (tm = localtime(&now)) == NULL ||
-      strftime(buf, sizeof(buf), "[%F %T %z]", tm) == 0) {
+  if (time(&now) == -1 || !get_localtime(&now, &tm) ||
+      strftime(buf, sizeof(buf), "[%F %T %z]", &tm) == 0) {
     num_chars_written = sprintf(buf, "[-]");
     assert(num_chars_written >= 0); // Error: "sprintf write error to buf".
   }
-- 
2.43.0


From 0ec34a4482acfcde509d92115b22debfe992d2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:47 +0000
Subject: [PATCH 37/90] fix: load one model at a time

Loading a model sets OM_CONSTANT_PATH for the time of the load when the user did
not set it. Another thread that loaded its model meanwhile took that setting for
the user's, or lost its own: its library looked for its constants in the
directory of the other model or in none, and a removed or lasting setting could
affect all later loads.
---
 src/Runtime/ExecutionSession.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Runtime/ExecutionSession.cpp b/src/Runtime/ExecutionSession.cpp
index 07316a0..4b30ecf 100644
--- a/src/Runtime/ExecutionSession.cpp
+++ b/src/Runtime/ExecutionSession.cpp
@@ -22,6 +22,7 @@
 
 #include <iostream>
 #include <memory>
+#include <mutex>
 #include <sstream>
 #include <vector>
 
@@ -76,6 +77,12 @@ void ExecutionSession::loadModel(const std::string &sharedLibPath,
 
   std::string tag = modelTag;
 
+  // Loading temporarily sets OM_CONSTANT_PATH, which belongs to the whole
+  // process, so load one model at a time. Recursive as the constructors of a
+  // library may load another model.
+  static std::recursive_mutex loadMutex;
+  std::lock_guard<std::recursive_mutex> loadLock(loadMutex);
+
   // Undo on every exit what must not outlive the load: the temporary setting of
   // OM_CONSTANT_PATH (it would conflict with the load of another model), and,
   // if the load fails, the library that was opened.
-- 
2.43.0


From 84e6a74804da972f4885c2995ad92ccc34174eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:21 +0000
Subject: [PATCH 38/90] fix: give views of ztensors descriptors of their own

zdnnx_create_view copied the descriptor pointers of its input and then wrote
the shape of the view through them: an element-wise operation on a large
tensor changed the shape and layout of its caller's tensors, also of inputs
that other threads were using.
---
 src/Accelerators/NNPA/Runtime/zdnnx/omp_ops.c | 18 +++++++++++++-----
 src/Accelerators/NNPA/Runtime/zdnnx/zdnnx.c   |  9 ++++++++-
 src/Accelerators/NNPA/Runtime/zdnnx/zdnnx.h   |  9 ++++++++-
 3 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/Accelerators/NNPA/Runtime/zdnnx/omp_ops.c b/src/Accelerators/NNPA/Runtime/zdnnx/omp_ops.c
index 5dfeb2d..da9c752 100644
--- a/src/Accelerators/NNPA/Runtime/zdnnx/omp_ops.c
+++ b/src/Accelerators/NNPA/Runtime/zdnnx/omp_ops.c
@@ -374,6 +374,7 @@ zdnn_status zdnnx_omp_unary_elementwise(const zdnn_ztensor *input,
   // Reshape the input tensor by collapsing all dimensions into E4, so that we
   // have enough parallel works in any case and reuse is always possible.
   zdnn_ztensor input_view, output_view;
+  zdnn_tensor_desc input_view_descs[2], output_view_descs[2];
   if (isBigTensor && input_shape[E1] % 64 == 0 && input_shape[E2] % 32 == 0) {
     // Only collapse when E1 is a multiple of 64  and E2 is a multiple of 32 to
     // avoid accessing padding values. Otherwise zdnn will warn range violation.
@@ -387,8 +388,10 @@ zdnn_status zdnnx_omp_unary_elementwise(const zdnn_ztensor *input,
     view_shape[1] = 1;
     view_shape[2] = 32;
     view_shape[3] = 64;
-    zdnnx_create_view(input, &input_view, view_shape, view_layout);
-    zdnnx_create_view(output, &output_view, view_shape, view_layout);
+    zdnnx_create_view(input, &input_view, &input_view_descs[0],
+        &input_view_descs[1], view_shape, view_layout);
+    zdnnx_create_view(output, &output_view, &output_view_descs[0],
+        &output_view_descs[1], view_shape, view_layout);
   } else {
     // View is exactly same as the original tensor.
     input_view = *input;
@@ -466,6 +469,8 @@ zdnn_status zdnnx_omp_binary_elementwise(const zdnn_ztensor *input_a,
   // Reshape the input tensor by collapsing all dimensions into E4, so that we
   // have enough parallel works in any case and reuse is always possible.
   zdnn_ztensor input_a_view, input_b_view, output_view;
+  zdnn_tensor_desc input_a_view_descs[2], input_b_view_descs[2],
+      output_view_descs[2];
   if (isBigTensor && input_shape[E1] % 64 == 0 && input_shape[E2] % 32 == 0) {
     // Only collapse when E1 is a multiple of 64  and E2 is a multiple of 32 to
     // avoid accessing padding values. Otherwise zdnn will warn range violation.
@@ -479,9 +484,12 @@ zdnn_status zdnnx_omp_binary_elementwise(const zdnn_ztensor *input_a,
     view_shape[1] = 1;
     view_shape[2] = 32;
     view_shape[3] = 64;
-    zdnnx_create_view(input_a, &input_a_view, view_shape, view_layout);
-    zdnnx_create_view(input_b, &input_b_view, view_shape, view_layout);
-    zdnnx_create_view(output, &output_view, view_shape, view_layout);
+    zdnnx_create_view(input_a, &input_a_view, &input_a_view_descs[0],
+        &input_a_view_descs[1], view_shape, view_layout);
+    zdnnx_create_view(input_b, &input_b_view, &input_b_view_descs[0],
+        &input_b_view_descs[1], view_shape, view_layout);
+    zdnnx_create_view(output, &output_view, &output_view_descs[0],
+        &output_view_descs[1], view_shape, view_layout);
   } else {
     // View is exactly same as the original tensor.
     input_a_view = *input_a;
diff --git a/src/Accelerators/NNPA/Runtime/zdnnx/zdnnx.c b/src/Accelerators/NNPA/Runtime/zdnnx/zdnnx.c
index f3a9895..3c12d42 100644
--- a/src/Accelerators/NNPA/Runtime/zdnnx/zdnnx.c
+++ b/src/Accelerators/NNPA/Runtime/zdnnx/zdnnx.c
@@ -416,9 +416,16 @@ uint32_t zdnnx_get_transformed_dim_per_tile(
 }
 
 void zdnnx_create_view(const zdnn_ztensor *input, zdnn_ztensor *input_view,
-    uint32_t *view_shape, zdnn_data_layouts view_layout) {
+    zdnn_tensor_desc *view_pre_transformed_desc,
+    zdnn_tensor_desc *view_transformed_desc, uint32_t *view_shape,
+    zdnn_data_layouts view_layout) {
   // Initialize the view with the original info from the input.
   *input_view = *input;
+  // The view has its own descriptors. Those of the input must not change.
+  *view_pre_transformed_desc = *input->pre_transformed_desc;
+  *view_transformed_desc = *input->transformed_desc;
+  input_view->pre_transformed_desc = view_pre_transformed_desc;
+  input_view->transformed_desc = view_transformed_desc;
 
   // Update dim sizes in the pre_transformed_desc.
   input_view->pre_transformed_desc->dim4 = view_shape[E4];
diff --git a/src/Accelerators/NNPA/Runtime/zdnnx/zdnnx.h b/src/Accelerators/NNPA/Runtime/zdnnx/zdnnx.h
index 23dc22d..3ec7490 100644
--- a/src/Accelerators/NNPA/Runtime/zdnnx/zdnnx.h
+++ b/src/Accelerators/NNPA/Runtime/zdnnx/zdnnx.h
@@ -139,14 +139,21 @@ uint32_t zdnnx_get_transformed_dim_per_tile(
  *
  * Create a view of a ztensor by using a new shape and layout.
  *
+ * The view needs descriptors of its own, given by the caller, that must outlive
+ * the view. The descriptors of the input are not changed.
+ *
  * @param input input ztensor
  * @param input_view view ztensor
+ * @param view_pre_transformed_desc pre-transformed descriptor for the view
+ * @param view_transformed_desc transformed descriptor for the view
  * @param view_shape 4D shape of the view ztensor
  * @param view_layout zdnn layout of the view ztensor
  *
  */
 void zdnnx_create_view(const zdnn_ztensor *input, zdnn_ztensor *input_view,
-    uint32_t *view_shape, zdnn_data_layouts view_layout);
+    zdnn_tensor_desc *view_pre_transformed_desc,
+    zdnn_tensor_desc *view_transformed_desc, uint32_t *view_shape,
+    zdnn_data_layouts view_layout);
 
 /**
  * \brief Allocate a 4K-aligned buffer large enough to be used as a ztensor
-- 
2.43.0


From acd33d2ff726c3ec2ca9287f677d0bd443124346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:10 +0000
Subject: [PATCH 39/90] fix: report the status of every tile of an operation

Parallel element-wise operations ignored the status of their tiles and
reported success for a failed one; sequential ones returned at the first
warning, leaving the output incomplete and the tile buffers allocated; matrix
products and softmax ended the process. All tiles are now computed and the
most severe status is returned, as for an operation that is not split.
---
 src/Accelerators/NNPA/Runtime/zdnnx/omp_ops.c | 57 ++++++++++++-------
 src/Accelerators/NNPA/Runtime/zdnnx/seq_ops.c | 28 +++++----
 .../NNPA/Runtime/zdnnx/zdnnx_ops_private.h    | 14 +++++
 3 files changed, 68 insertions(+), 31 deletions(-)

diff --git a/src/Accelerators/NNPA/Runtime/zdnnx/omp_ops.c b/src/Accelerators/NNPA/Runtime/zdnnx/omp_ops.c
index da9c752..0e8d931 100644
--- a/src/Accelerators/NNPA/Runtime/zdnnx/omp_ops.c
+++ b/src/Accelerators/NNPA/Runtime/zdnnx/omp_ops.c
@@ -15,7 +15,6 @@
 
 #ifdef ZDNNX_WITH_OMP
 
-#include <assert.h>
 #include <math.h>
 #include <omp.h>
 #include <stdio.h>
@@ -25,6 +24,7 @@
 #include "seq_ops.h"
 #include "zdnnx.h"
 #include "zdnnx_ops.h"
+#include "zdnnx_ops_private.h"
 
 // Keep these values to avoid calling omp functions multiple times.
 static uint32_t zdnnx_num_zaiu_threads = 0;
@@ -211,10 +211,13 @@ zdnn_status zdnnx_omp_matmul(const zdnn_ztensor *input_a,
   uint32_t NT = zdnnx_get_num_tiles(&si_b, E1);
   // Iterate over the tiles along the first dim of A.
   // Only enable parallelism at this level if there are enough work.
+  zdnn_status ret_status = ZDNN_OK;
 
-#pragma omp parallel for num_threads(BT) if (split_bs_only)
+#pragma omp parallel for num_threads(BT) if (split_bs_only)                    \
+    reduction(max : ret_status)
   for (uint32_t bs = 0; bs < BT; ++bs) {
-#pragma omp parallel for num_threads(MT) if (split_m)
+#pragma omp parallel for num_threads(MT) if (split_m)                          \
+    reduction(max : ret_status)
     for (uint32_t m = 0; m < MT; ++m) {
       /* Prepare and set an A tile at index (0, 0, m, 0). */
       zdnnx_tile ta;
@@ -223,7 +226,8 @@ zdnn_status zdnnx_omp_matmul(const zdnn_ztensor *input_a,
       zdnnx_copy_data_to_tile(&ta);
 
       // Iterate over the tiles along the second dim of B.
-#pragma omp parallel for shared(m, ta, is_bcast) num_threads(NT) if (split_n)
+#pragma omp parallel for shared(m, ta, is_bcast) num_threads(NT) if (split_n)  \
+    reduction(max : ret_status)
       for (uint32_t n = 0; n < NT; ++n) {
         /* Prepare and set B and C tiles at index (0, 0, 0, n). */
         zdnnx_tile tb, tc;
@@ -240,7 +244,7 @@ zdnn_status zdnnx_omp_matmul(const zdnn_ztensor *input_a,
         /* Operation */
         zdnn_status status = zdnnx_seq_matmul(&ta.data, &tb.data, &tc.data,
             transpose_a, transpose_b, op_type, &ty.data, is_bcast);
-        assert(status == ZDNN_OK);
+        ret_status = zdnnx_combine_status(ret_status, status);
 
         /* Copy the output tile at (0, 0, m, n) to the full output. */
         zdnnx_copy_data_to_full(&ty);
@@ -256,7 +260,7 @@ zdnn_status zdnnx_omp_matmul(const zdnn_ztensor *input_a,
     }
   }
 
-  return ZDNN_OK;
+  return ret_status;
 }
 
 zdnn_status zdnnx_omp_quantized_matmul(const zdnn_ztensor *input_a,
@@ -310,10 +314,13 @@ zdnn_status zdnnx_omp_quantized_matmul(const zdnn_ztensor *input_a,
   uint32_t NT = zdnnx_get_num_tiles(&si_b, E1);
   // Iterate over the tiles along the first dim of A.
   // Only enable parallelism at this level if there are enough work.
+  zdnn_status ret_status = ZDNN_OK;
 
-#pragma omp parallel for num_threads(BT) if (split_bs_only)
+#pragma omp parallel for num_threads(BT) if (split_bs_only)                    \
+    reduction(max : ret_status)
   for (uint32_t bs = 0; bs < BT; ++bs) {
-#pragma omp parallel for num_threads(MT) if (split_m)
+#pragma omp parallel for num_threads(MT) if (split_m)                          \
+    reduction(max : ret_status)
     for (uint32_t m = 0; m < MT; ++m) {
       /* Prepare and set an A tile at index (0, 0, m, 0). */
       zdnnx_tile ta;
@@ -322,7 +329,8 @@ zdnn_status zdnnx_omp_quantized_matmul(const zdnn_ztensor *input_a,
       zdnnx_copy_data_to_tile(&ta);
 
       // Iterate over the tiles along the second dim of B.
-#pragma omp parallel for shared(m, ta) num_threads(NT) if (split_n)
+#pragma omp parallel for shared(m, ta) num_threads(NT) if (split_n)            \
+    reduction(max : ret_status)
       for (uint32_t n = 0; n < NT; ++n) {
         /* Prepare and set B and C tiles at index (0, 0, 0, n). */
         zdnnx_tile tb, tc;
@@ -341,7 +349,7 @@ zdnn_status zdnnx_omp_quantized_matmul(const zdnn_ztensor *input_a,
         zdnn_status status = zdnn_quantized_matmul_op(&ta.data, &tb.data,
             &tc.data, op_type, clip_min, clip_max, disable_clipping, dequantize,
             pre_computed, NULL, &ty.data);
-        assert(status == ZDNN_OK);
+        ret_status = zdnnx_combine_status(ret_status, status);
 
         /* Copy the output tile at (0, 0, m, n) to the full output. */
         zdnnx_copy_data_to_full(&ty);
@@ -357,7 +365,7 @@ zdnn_status zdnnx_omp_quantized_matmul(const zdnn_ztensor *input_a,
     }
   }
 
-  return ZDNN_OK;
+  return ret_status;
 }
 
 zdnn_status zdnnx_omp_unary_elementwise(const zdnn_ztensor *input,
@@ -427,7 +435,9 @@ zdnn_status zdnnx_omp_unary_elementwise(const zdnn_ztensor *input,
   uint32_t num_tiles_e3 = zdnnx_get_num_tiles(&si_x, E3);
   uint32_t num_tiles_e2 = zdnnx_get_num_tiles(&si_x, E2);
   uint32_t num_tiles_e1 = zdnnx_get_num_tiles(&si_x, E1);
-#pragma omp parallel for num_threads(num_tiles) collapse(4)
+  zdnn_status ret_status = ZDNN_OK;
+#pragma omp parallel for num_threads(num_tiles) collapse(4)                    \
+    reduction(max : ret_status)
   for (uint32_t e4 = 0; e4 < num_tiles_e4; ++e4) {
     for (uint32_t e3 = 0; e3 < num_tiles_e3; ++e3) {
       for (uint32_t e2 = 0; e2 < num_tiles_e2; ++e2) {
@@ -438,8 +448,9 @@ zdnn_status zdnnx_omp_unary_elementwise(const zdnn_ztensor *input,
           zdnnx_set_tile(&si_y, &ty, NULL, e4, e3, e2, e1);
           zdnnx_copy_data_to_tile(&tx);
 
-          zdnnx_seq_unary_elementwise(
+          zdnn_status status = zdnnx_seq_unary_elementwise(
               &tx.data, scalar_input, &ty.data, op_type);
+          ret_status = zdnnx_combine_status(ret_status, status);
 
           zdnnx_copy_data_to_full(&ty);
 
@@ -451,7 +462,7 @@ zdnn_status zdnnx_omp_unary_elementwise(const zdnn_ztensor *input,
     }
   }
 
-  return ZDNN_OK;
+  return ret_status;
 }
 
 zdnn_status zdnnx_omp_binary_elementwise(const zdnn_ztensor *input_a,
@@ -528,7 +539,9 @@ zdnn_status zdnnx_omp_binary_elementwise(const zdnn_ztensor *input_a,
   uint32_t num_tiles_e3 = zdnnx_get_num_tiles(&si_a, E3);
   uint32_t num_tiles_e2 = zdnnx_get_num_tiles(&si_a, E2);
   uint32_t num_tiles_e1 = zdnnx_get_num_tiles(&si_a, E1);
-#pragma omp parallel for num_threads(num_tiles) collapse(4)
+  zdnn_status ret_status = ZDNN_OK;
+#pragma omp parallel for num_threads(num_tiles) collapse(4)                    \
+    reduction(max : ret_status)
   for (uint32_t e4 = 0; e4 < num_tiles_e4; ++e4) {
     for (uint32_t e3 = 0; e3 < num_tiles_e3; ++e3) {
       for (uint32_t e2 = 0; e2 < num_tiles_e2; ++e2) {
@@ -543,7 +556,9 @@ zdnn_status zdnnx_omp_binary_elementwise(const zdnn_ztensor *input_a,
           zdnnx_copy_data_to_tile(&ta);
           zdnnx_copy_data_to_tile(&tb);
 
-          zdnnx_seq_binary_elementwise(&ta.data, &tb.data, &ty.data, op_type);
+          zdnn_status status = zdnnx_seq_binary_elementwise(
+              &ta.data, &tb.data, &ty.data, op_type);
+          ret_status = zdnnx_combine_status(ret_status, status);
 
           zdnnx_copy_data_to_full(&ty);
 
@@ -556,7 +571,7 @@ zdnn_status zdnnx_omp_binary_elementwise(const zdnn_ztensor *input_a,
     }
   }
 
-  return ZDNN_OK;
+  return ret_status;
 }
 
 zdnn_status zdnnx_omp_softmax(const zdnn_ztensor *input, void *save_area,
@@ -620,7 +635,9 @@ zdnn_status zdnnx_omp_softmax(const zdnn_ztensor *input, void *save_area,
   // TODO: could we reuse save_area in particular in the parallel scenario?
   uint32_t num_tiles_e4 = zdnnx_get_num_tiles(&si_x, E4);
   uint32_t num_tiles_e2 = zdnnx_get_num_tiles(&si_x, E2);
-#pragma omp parallel for num_threads(num_tiles) collapse(2)
+  zdnn_status ret_status = ZDNN_OK;
+#pragma omp parallel for num_threads(num_tiles) collapse(2)                    \
+    reduction(max : ret_status)
   for (uint32_t e4 = 0; e4 < num_tiles_e4; ++e4) {
     for (uint32_t e2 = 0; e2 < num_tiles_e2; ++e2) {
       // Prepare tile structs.
@@ -632,7 +649,7 @@ zdnn_status zdnnx_omp_softmax(const zdnn_ztensor *input, void *save_area,
       zdnnx_copy_data_to_tile(&tx);
       zdnn_status status =
           zdnnx_seq_softmax(&tx.data, NULL, act_func, &ty.data);
-      assert(status == ZDNN_OK);
+      ret_status = zdnnx_combine_status(ret_status, status);
       zdnnx_copy_data_to_full(&ty);
 
       // Free buffers.
@@ -640,7 +657,7 @@ zdnn_status zdnnx_omp_softmax(const zdnn_ztensor *input, void *save_area,
       zdnnx_free_tile_buffer(&ty);
     }
   }
-  return ZDNN_OK;
+  return ret_status;
 }
 
 #endif // ZDNNX_WITH_OMP
diff --git a/src/Accelerators/NNPA/Runtime/zdnnx/seq_ops.c b/src/Accelerators/NNPA/Runtime/zdnnx/seq_ops.c
index 2844dda..b144b2b 100644
--- a/src/Accelerators/NNPA/Runtime/zdnnx/seq_ops.c
+++ b/src/Accelerators/NNPA/Runtime/zdnnx/seq_ops.c
@@ -13,13 +13,13 @@
 //
 //===----------------------------------------------------------------------===//
 
-#include <assert.h>
 #include <stdio.h>
 #include <stdlib.h>
 
 #include "seq_ops.h"
 #include "zdnnx.h"
 #include "zdnnx_ops.h"
+#include "zdnnx_ops_private.h"
 #include "zdnnx_private.h"
 
 // -----------------------------------------------------------------------------
@@ -192,6 +192,8 @@ zdnn_status zdnnx_seq_unary_elementwise(const zdnn_ztensor *input,
     tile_buff_y = zdnnx_alloc_buffer(&si_y);
   // Prepare tile structs.
   zdnnx_tile tx, ty;
+  // Status of the whole operation.
+  zdnn_status ret_status = ZDNN_OK;
 
   // Call zdnn op on each tile.
   uint32_t num_tiles_e4 = zdnnx_get_num_tiles(&si_x, E4);
@@ -224,8 +226,7 @@ zdnn_status zdnnx_seq_unary_elementwise(const zdnn_ztensor *input,
             status = zdnn_sqrt(&tx.data, &ty.data);
           else if (op_type == ZDNNX_TANH_OP)
             status = zdnn_tanh(&tx.data, &ty.data);
-          if (status != ZDNN_OK)
-            return status;
+          ret_status = zdnnx_combine_status(ret_status, status);
 
           zdnnx_copy_data_to_full(&ty);
         }
@@ -237,7 +238,7 @@ zdnn_status zdnnx_seq_unary_elementwise(const zdnn_ztensor *input,
   zdnnx_free_buffer(tile_buff_x);
   zdnnx_free_buffer(tile_buff_y);
 
-  return ZDNN_OK;
+  return ret_status;
 }
 
 zdnn_status zdnnx_seq_binary_elementwise(const zdnn_ztensor *input_a,
@@ -292,6 +293,8 @@ zdnn_status zdnnx_seq_binary_elementwise(const zdnn_ztensor *input_a,
     tile_buff_y = zdnnx_alloc_buffer(&si_y);
   // Prepare tile structs.
   zdnnx_tile ta, tb, ty;
+  // Status of the whole operation.
+  zdnn_status ret_status = ZDNN_OK;
 
   // Call zdnn op on each tile.
   uint32_t num_tiles_e4 = zdnnx_get_num_tiles(&si_a, E4);
@@ -324,8 +327,7 @@ zdnn_status zdnnx_seq_binary_elementwise(const zdnn_ztensor *input_a,
             status = zdnn_min(&ta.data, &tb.data, &ty.data);
           else
             status = ZDNN_UNAVAILABLE_FUNCTION;
-          if (status != ZDNN_OK)
-            return status;
+          ret_status = zdnnx_combine_status(ret_status, status);
 
           zdnnx_copy_data_to_full(&ty);
         }
@@ -338,7 +340,7 @@ zdnn_status zdnnx_seq_binary_elementwise(const zdnn_ztensor *input_a,
   zdnnx_free_buffer(tile_buff_b);
   zdnnx_free_buffer(tile_buff_y);
 
-  return ZDNN_OK;
+  return ret_status;
 }
 
 zdnn_status zdnnx_seq_softmax(const zdnn_ztensor *input, void *save_area,
@@ -374,6 +376,8 @@ zdnn_status zdnnx_seq_softmax(const zdnn_ztensor *input, void *save_area,
     tile_buff_y = zdnnx_alloc_buffer(&si_y);
   // Prepare tile structs.
   zdnnx_tile tx, ty;
+  // Status of the whole operation.
+  zdnn_status ret_status = ZDNN_OK;
 
   // Call zdnn_softmax on each tile. Not use save_area.
   // TODO: could we reuse save_area in particular in the parallel scenario?
@@ -388,7 +392,7 @@ zdnn_status zdnnx_seq_softmax(const zdnn_ztensor *input, void *save_area,
 
         zdnnx_copy_data_to_tile(&tx);
         zdnn_status status = zdnn_softmax(&tx.data, NULL, act_func, &ty.data);
-        assert(status == ZDNN_OK);
+        ret_status = zdnnx_combine_status(ret_status, status);
         zdnnx_copy_data_to_full(&ty);
       }
     }
@@ -398,7 +402,7 @@ zdnn_status zdnnx_seq_softmax(const zdnn_ztensor *input, void *save_area,
   zdnnx_free_buffer(tile_buff_x);
   zdnnx_free_buffer(tile_buff_y);
 
-  return ZDNN_OK;
+  return ret_status;
 }
 
 static inline zdnn_status call_zdnn_matmul_op(const zdnn_ztensor *input_a,
@@ -470,6 +474,8 @@ zdnn_status zdnnx_seq_matmul(const zdnn_ztensor *input_a,
     tile_buff_y = zdnnx_alloc_buffer(&si_y);
   // Prepare tile structs.
   zdnnx_tile ta, tb, tc, ty;
+  // Status of the whole operation.
+  zdnn_status ret_status = ZDNN_OK;
 
   // Call zdnn_matmul_op on each tile.
   // For each output tile at index (m, n): Y(m, n) = A(m, K) * B(K, n).
@@ -498,7 +504,7 @@ zdnn_status zdnnx_seq_matmul(const zdnn_ztensor *input_a,
         /* Operation */
         zdnn_status status = call_zdnn_matmul_op(&ta.data, &tb.data, &tc.data,
             transpose_a, transpose_b, op_type, &ty.data, is_bcast);
-        assert(status == ZDNN_OK);
+        ret_status = zdnnx_combine_status(ret_status, status);
 
         /* Copy the output tile at (0, 0, m, n) to the full output. */
         zdnnx_copy_data_to_full(&ty);
@@ -511,5 +517,5 @@ zdnn_status zdnnx_seq_matmul(const zdnn_ztensor *input_a,
   zdnnx_free_buffer(tile_buff_b);
   zdnnx_free_buffer(tile_buff_c);
   zdnnx_free_buffer(tile_buff_y);
-  return ZDNN_OK;
+  return ret_status;
 }
diff --git a/src/Accelerators/NNPA/Runtime/zdnnx/zdnnx_ops_private.h b/src/Accelerators/NNPA/Runtime/zdnnx/zdnnx_ops_private.h
index 37d1066..f3513bf 100644
--- a/src/Accelerators/NNPA/Runtime/zdnnx/zdnnx_ops_private.h
+++ b/src/Accelerators/NNPA/Runtime/zdnnx/zdnnx_ops_private.h
@@ -88,6 +88,20 @@ uint32_t zdnnx_get_nnpa_max_dim_size(zdnnx_axis dim_index);
 // Get the max number of elements per tensor on zAIU.
 uint64_t zdnnx_get_nnpa_max_tensor_size();
 
+/**
+ * \brief Combine the statuses of two parts of an operation
+ *
+ * Status values of zdnn grow with severity: ok, warnings, errors. The most
+ * severe one is the status of the whole operation.
+ *
+ * @param a zdnn status
+ * @param b zdnn status
+ * @return the most severe status.
+ */
+static inline zdnn_status zdnnx_combine_status(zdnn_status a, zdnn_status b) {
+  return (a > b) ? a : b;
+}
+
 /**
  * \brief Check zdnn status
  *
-- 
2.43.0


From d9e82ce956bf4a4b1bed378e8a779ba5ee1415f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:16 +0000
Subject: [PATCH 40/90] fix: split transposed matrix products along the right
 dimensions

The parallel matrix product took the rows of a transposed first operand and
the columns of a transposed second one for the dimension that is summed over,
and cut operands and output inconsistently.
---
 src/Accelerators/NNPA/Runtime/zdnnx/omp_ops.c | 26 ++++++++++++-------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/Accelerators/NNPA/Runtime/zdnnx/omp_ops.c b/src/Accelerators/NNPA/Runtime/zdnnx/omp_ops.c
index 0e8d931..b5fd48b 100644
--- a/src/Accelerators/NNPA/Runtime/zdnnx/omp_ops.c
+++ b/src/Accelerators/NNPA/Runtime/zdnnx/omp_ops.c
@@ -72,8 +72,9 @@ static uint32_t zdnnx_get_min_num_threads_per_zaiu() {
 
 static inline zdnn_status compute_tile_sizes_for_matmul(
     const zdnn_ztensor *input_a, const zdnn_ztensor *input_b,
-    const zdnn_ztensor *input_c, uint32_t *ts_e4, uint32_t *ts_e2,
-    uint32_t *ts_e1, bool *split_bs_only, bool *split_m, bool *split_n) {
+    const zdnn_ztensor *input_c, bool transpose_a, bool transpose_b,
+    uint32_t *ts_e4, uint32_t *ts_e2, uint32_t *ts_e1, bool *split_bs_only,
+    bool *split_m, bool *split_n) {
   // For a MatMul of A(BS,M,K)*B(K,N)+C(N),
   // - BS is e4 in (e4, e3, e2, e1), M is e2 and N is e1.
   //
@@ -97,14 +98,17 @@ static inline zdnn_status compute_tile_sizes_for_matmul(
   //
   // In all cases, use `OMP_PLACES` to specify zAIUs so that threads are spread
   // over multiple zAIUs.
+  //
+  // M and N of a transposed tensor are e1 and e2, respectively. If a tensor is
+  // transposed, only split its E4.
   uint32_t mdis_e1 = zdnnx_get_nnpa_max_dim_size(E1);
   uint32_t mdis_e2 = zdnnx_get_nnpa_max_dim_size(E2);
   uint32_t num_zaiu_threads = zdnnx_get_num_zaiu_threads();
   uint32_t num_threads_per_zaiu = zdnnx_get_min_num_threads_per_zaiu();
   uint32_t BS = zdnnx_get_transformed_dim(input_a, E4);
-  uint32_t M = zdnnx_get_transformed_dim(input_a, E2);
-  uint32_t K = zdnnx_get_transformed_dim(input_a, E1);
-  uint32_t N = zdnnx_get_transformed_dim(input_b, E1);
+  uint32_t M = zdnnx_get_transformed_dim(input_a, transpose_a ? E1 : E2);
+  uint32_t K = zdnnx_get_transformed_dim(input_a, transpose_a ? E2 : E1);
+  uint32_t N = zdnnx_get_transformed_dim(input_b, transpose_b ? E2 : E1);
 
   if (K > mdis_e1) {
     printf("[zdnnx] matmul: K (%d) exceeds MDIS (%d)\n", K, mdis_e1);
@@ -113,8 +117,8 @@ static inline zdnn_status compute_tile_sizes_for_matmul(
 
   bool enoughBS = (num_zaiu_threads == 1 && BS >= num_threads_per_zaiu) ||
                   (num_zaiu_threads > 1 && BS >= num_zaiu_threads);
-  bool exceedM = M > mdis_e2;
-  bool exceedN = N > mdis_e1;
+  bool exceedM = !transpose_a && M > mdis_e2;
+  bool exceedN = !transpose_b && N > mdis_e1;
 
   // Set tile_size for BS.
   if (enoughBS && !exceedM && !exceedN) {
@@ -140,7 +144,7 @@ static inline zdnn_status compute_tile_sizes_for_matmul(
   if (exceedN) {
     *ts_e1 = 4096;
     *split_n = true;
-  } else if (!*split_bs_only) {
+  } else if (!*split_bs_only && !transpose_b) {
     uint32_t num_tiles_per_e1 = 1;
     if (*split_m) {
       // Tiles over M are parallelized over multiple zaius.
@@ -184,7 +188,8 @@ zdnn_status zdnnx_omp_matmul(const zdnn_ztensor *input_a,
   uint32_t ts_e4 = 0, ts_e2 = 0, ts_e1 = 0;
   bool split_bs_only = false, split_m = false, split_n = false;
   zdnn_status ts_status = compute_tile_sizes_for_matmul(input_a, input_b,
-      input_c, &ts_e4, &ts_e2, &ts_e1, &split_bs_only, &split_m, &split_n);
+      input_c, transpose_a, transpose_b, &ts_e4, &ts_e2, &ts_e1, &split_bs_only,
+      &split_m, &split_n);
   if (ts_status != ZDNN_OK)
     return ts_status;
 
@@ -282,7 +287,8 @@ zdnn_status zdnnx_omp_quantized_matmul(const zdnn_ztensor *input_a,
   uint32_t ts_e4 = 0, ts_e2 = 0, ts_e1 = 0;
   bool split_bs_only = false, split_m = false, split_n = false;
   zdnn_status ts_status = compute_tile_sizes_for_matmul(input_a, input_b,
-      input_c, &ts_e4, &ts_e2, &ts_e1, &split_bs_only, &split_m, &split_n);
+      input_c, /*transpose_a*/ false, /*transpose_b*/ false, &ts_e4, &ts_e2,
+      &ts_e1, &split_bs_only, &split_m, &split_n);
   if (ts_status != ZDNN_OK)
     return ts_status;
 
-- 
2.43.0


From 7c272688ceb004ca996fb730086394c6f9288072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:53 +0000
Subject: [PATCH 41/90] fix: recognise the last tile of an unequal split

zdnnx_is_full_tile tested the equal-split flags the wrong way round: the last
tile was given the shape of a full one when all four dimensions were split
unequally, so that its data was copied from and to places outside of the
tensor.
---
 src/Accelerators/NNPA/Runtime/zdnnx/utils.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Accelerators/NNPA/Runtime/zdnnx/utils.c b/src/Accelerators/NNPA/Runtime/zdnnx/utils.c
index 22f6be5..1237ed4 100644
--- a/src/Accelerators/NNPA/Runtime/zdnnx/utils.c
+++ b/src/Accelerators/NNPA/Runtime/zdnnx/utils.c
@@ -36,13 +36,13 @@ bool zdnnx_is_full_tile(zdnnx_tile *tile) {
   bool full_tile = true;
   // Check last tiles.
   if (tile->indices[E4] == num_tiles[E4] - 1)
-    full_tile &= ((split_info->flags & EQUAL_SPLIT_E4) == 0);
+    full_tile &= ((split_info->flags & EQUAL_SPLIT_E4) != 0);
   if (tile->indices[E3] == num_tiles[E3] - 1)
-    full_tile &= ((split_info->flags & EQUAL_SPLIT_E3) == 0);
+    full_tile &= ((split_info->flags & EQUAL_SPLIT_E3) != 0);
   if (tile->indices[E2] == num_tiles[E2] - 1)
-    full_tile &= ((split_info->flags & EQUAL_SPLIT_E2) == 0);
+    full_tile &= ((split_info->flags & EQUAL_SPLIT_E2) != 0);
   if (tile->indices[E1] == num_tiles[E1] - 1)
-    full_tile &= ((split_info->flags & EQUAL_SPLIT_E1) == 0);
+    full_tile &= ((split_info->flags & EQUAL_SPLIT_E1) != 0);
   return full_tile;
 }
 
-- 
2.43.0


From 326608b4e2b1e0e0f36cd9c0aa1760dd7cc2cc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:17 +0000
Subject: [PATCH 42/90] fix: do not divide by zero for settings that are not
 positive

OM_NUM_ZAIU_THREADS or OMP_NUM_THREADS without a positive number and
ZDNNX_MAX_TILE_SIZE_IN_MB=0 ended the process at the first operation.
---
 src/Accelerators/NNPA/Runtime/zdnnx/omp_ops.c           | 7 +++++--
 src/Accelerators/NNPA/Runtime/zdnnx/zdnnx_ops_private.c | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/Accelerators/NNPA/Runtime/zdnnx/omp_ops.c b/src/Accelerators/NNPA/Runtime/zdnnx/omp_ops.c
index b5fd48b..3fe8fe3 100644
--- a/src/Accelerators/NNPA/Runtime/zdnnx/omp_ops.c
+++ b/src/Accelerators/NNPA/Runtime/zdnnx/omp_ops.c
@@ -40,13 +40,16 @@ uint32_t zdnnx_get_num_zaiu_threads() {
 
   // If OM_NUM_ZAIU_THREADS is set, use it.
   // Otherwise, use OMP_NUM_THREADS.
+  int num_threads;
   const char *env_num_zaiu_threads = getenv("OM_NUM_ZAIU_THREADS");
   if (env_num_zaiu_threads != NULL) {
-    zdnnx_num_zaiu_threads = atoi(env_num_zaiu_threads);
+    num_threads = atoi(env_num_zaiu_threads);
   } else {
     const char *env = getenv("OMP_NUM_THREADS");
-    zdnnx_num_zaiu_threads = (env != NULL) ? atoi(env) : 1;
+    num_threads = (env != NULL) ? atoi(env) : 1;
   }
+  // At least one thread, also if the value is not a positive number.
+  zdnnx_num_zaiu_threads = (num_threads > 0) ? num_threads : 1;
 
 #ifdef ZDNNX_DEBUG
   printf("[zdnnx] num_zaiu_threads: %d\n", zdnnx_num_zaiu_threads);
diff --git a/src/Accelerators/NNPA/Runtime/zdnnx/zdnnx_ops_private.c b/src/Accelerators/NNPA/Runtime/zdnnx/zdnnx_ops_private.c
index 2c6a6e8..8c6db98 100644
--- a/src/Accelerators/NNPA/Runtime/zdnnx/zdnnx_ops_private.c
+++ b/src/Accelerators/NNPA/Runtime/zdnnx/zdnnx_ops_private.c
@@ -84,8 +84,8 @@ uint64_t zdnnx_get_nnpa_max_tensor_size() {
         printf("Error when reading the enviroment variable "
                "ZDNNX_MAX_TILE_SIZE_IN_MB. Use the max tensor size in zdnn "
                "instead");
-      } else if (mb < 0) {
-        printf("Value of ZDNNX_MAX_TILE_SIZE_IN_MB cannot be negative. Use the "
+      } else if (mb * 1024 * 1024 < 1) {
+        printf("Value of ZDNNX_MAX_TILE_SIZE_IN_MB must be positive. Use the "
                "max tensor size in zdnn instead");
       } else {
         double bytes_d = mb * 1024 * 1024;
-- 
2.43.0


From aaab556be607a6a8d59e0d6567889d1e1f38888f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:16 +0000
Subject: [PATCH 43/90] fix: throw a Java exception when the model fails

The JNI wrapper returned null without a pending exception when the model, or the model's signature or compilation info, returned NULL.
---
 src/Runtime/jni/jniwrapper.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/Runtime/jni/jniwrapper.c b/src/Runtime/jni/jniwrapper.c
index 1c8c438..44a3ec2 100644
--- a/src/Runtime/jni/jniwrapper.c
+++ b/src/Runtime/jni/jniwrapper.c
@@ -691,8 +691,8 @@ JNIEXPORT jobject JNICALL Java_com_ibm_onnxmlir_OMModel_main_1graph_1jni(
       "jni_iomtl=%p", jni_iomtl);
 
   /* Call model inference entry point */
-  CHECK_CALL(OMTensorList *, jni_oomtl, run_main_graph(jni_iomtl),
-      jni_oomtl != NULL, "jni_oomtl=%p", jni_oomtl);
+  LIB_TYPE_VAR_CALL(OMTensorList *, jni_oomtl, run_main_graph(jni_iomtl),
+      jni_oomtl != NULL, env, japi->jecpt_cls, "jni_oomtl=%p", jni_oomtl);
 
   /* Convert native data structure to Java object */
   CHECK_CALL(jobject, java_oomtl,
@@ -816,8 +816,8 @@ JNIEXPORT jstring JNICALL Java_com_ibm_onnxmlir_OMModel_input_1signature_1jni(
   LOG_PRINTF(LOG_DEBUG, "ep(%d):%s", strlen(epptr), epptr);
 
   /* Call model input signature API */
-  CHECK_CALL(const char *, jni_isig, omInputSignature(epptr), jni_isig != NULL,
-      "jni_isig=%p", jni_isig);
+  LIB_TYPE_VAR_CALL(const char *, jni_isig, omInputSignature(epptr),
+      jni_isig != NULL, env, jecpt_cls, "jni_isig=%p", jni_isig);
 
   /* On z/OS, free the EBCDIC entry point name no longer needed */
 #ifdef __MVS__
@@ -878,8 +878,8 @@ JNIEXPORT jstring JNICALL Java_com_ibm_onnxmlir_OMModel_output_1signature_1jni(
   LOG_PRINTF(LOG_DEBUG, "ep(%d):%s", strlen(epptr), epptr);
 
   /* Call model output signature API */
-  CHECK_CALL(const char *, jni_osig, omOutputSignature(epptr), jni_osig != NULL,
-      "jni_osig=%p", jni_osig);
+  LIB_TYPE_VAR_CALL(const char *, jni_osig, omOutputSignature(epptr),
+      jni_osig != NULL, env, jecpt_cls, "jni_osig=%p", jni_osig);
 
   /* On z/OS, free the EBCDIC entry point name no longer needed */
 #ifdef __MVS__
@@ -924,8 +924,8 @@ JNIEXPORT jstring JNICALL Java_com_ibm_onnxmlir_OMModel_compilation_1info_1jni(
       jecpt_cls != NULL, NULL, "Class java/lang/Exception not found");
 
   /* Call model compilation info API */
-  CHECK_CALL(const char *, jni_cinfo, omCompilationInfo(), jni_cinfo != NULL,
-      "jni_cinfo=%p", jni_cinfo);
+  LIB_TYPE_VAR_CALL(const char *, jni_cinfo, omCompilationInfo(),
+      jni_cinfo != NULL, env, jecpt_cls, "jni_cinfo=%p", jni_cinfo);
 
   /* Compilation info in hex and string format for debugging */
   HEX_DEBUG("cinfo", jni_cinfo, strlen(jni_cinfo));
-- 
2.43.0


From 89b22160109f4ee409ceb1930a46baabde822473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:16 +0000
Subject: [PATCH 44/90] fix: give back Java arrays and native tensors on
 failure in the JNI wrapper

Every error path left borrowed array elements or strings, tensors and lists behind.
---
 src/Runtime/jni/jniwrapper.c | 233 +++++++++++++++++++----------------
 1 file changed, 126 insertions(+), 107 deletions(-)

diff --git a/src/Runtime/jni/jniwrapper.c b/src/Runtime/jni/jniwrapper.c
index 44a3ec2..056b20f 100644
--- a/src/Runtime/jni/jniwrapper.c
+++ b/src/Runtime/jni/jniwrapper.c
@@ -346,6 +346,95 @@ jniapi_t *fill_jniapi(JNIEnv *env, jniapi_t *japi) {
   return japi;
 }
 
+/* Convert the Java OMTensor object at index i of an array to a native
+ * OMTensor struct. On failure, a Java exception has been thrown, nothing
+ * is left behind and NULL is returned.
+ */
+static OMTensor *omt_java_to_native(
+    JNIEnv *env, jobjectArray jomtl_omts, int i, jniapi_t *japi) {
+  JNI_TYPE_VAR_CALL(env, jobject, jobj_omt,
+      (*env)->GetObjectArrayElement(env, jomtl_omts, i), jobj_omt != NULL,
+      japi->jecpt_cls, "jobj_omt[%d]=%p", i, jobj_omt);
+
+  /* Get data, shape, strides, dataType, rank, and bufferSize by calling
+   * corresponding methods
+   */
+  JNI_TYPE_VAR_CALL(env, jobject, jomt_data,
+      (*env)->CallObjectMethod(env, jobj_omt, japi->jomt_getData),
+      jomt_data != NULL, japi->jecpt_cls, "omt[%d]:data=%p", i, jomt_data);
+  JNI_TYPE_VAR_CALL(env, jobject, jomt_shape,
+      (*env)->CallObjectMethod(env, jobj_omt, japi->jomt_getShape),
+      jomt_shape != NULL, japi->jecpt_cls, "omt[%d]:shape=%p", i, jomt_shape);
+  JNI_TYPE_VAR_CALL(env, jobject, jomt_strides,
+      (*env)->CallObjectMethod(env, jobj_omt, japi->jomt_getStrides),
+      jomt_strides != NULL, japi->jecpt_cls, "omt[%d]:strides=%p", i,
+      jomt_strides);
+  JNI_TYPE_VAR_CALL(env, jint, jomt_dataType,
+      (*env)->CallIntMethod(env, jobj_omt, japi->jomt_getDataType),
+      jomt_dataType != ONNX_TYPE_UNDEFINED, japi->jecpt_cls,
+      "omt[%d]:dataType=%d", i, jomt_dataType);
+  JNI_TYPE_VAR_CALL(env, jlong, jomt_bufferSize,
+      (*env)->CallLongMethod(env, jobj_omt, japi->jomt_getBufferSize),
+      jomt_bufferSize >= 0, japi->jecpt_cls, "omt[%d]:bufferSize=%ld", i,
+      jomt_bufferSize);
+  JNI_TYPE_VAR_CALL(env, jlong, jomt_rank,
+      (*env)->CallLongMethod(env, jobj_omt, japi->jomt_getRank),
+      jomt_rank >= 0, japi->jecpt_cls, "omt[%d]:rank=%ld", i, jomt_rank);
+  JNI_TYPE_VAR_CALL(env, jlong, jomt_numElems,
+      (*env)->CallLongMethod(env, jobj_omt, japi->jomt_getNumElems),
+      jomt_numElems >= 0, japi->jecpt_cls, "omt[%d]:numElems=%ld", i,
+      jomt_numElems);
+
+  /* Get direct buffer associated with data */
+  JNI_TYPE_VAR_CALL(env, void *, jni_data,
+      (*env)->GetDirectBufferAddress(env, jomt_data), jni_data != NULL,
+      japi->jecpt_cls, "omt[%d]:jni_data=%p", i, jni_data);
+
+  /* Get long array associated with data shape and strides */
+  JNI_TYPE_VAR_CALL(env, jlong *, jni_shape,
+      (*env)->GetLongArrayElements(env, jomt_shape, NULL), jni_shape != NULL,
+      japi->jecpt_cls, "omt[%d]:jni_shape=%p", i, jni_shape);
+  jlong *jni_strides = (*env)->GetLongArrayElements(env, jomt_strides, NULL);
+
+  /* Primitive type int and long can be directly used */
+  int jni_dataType = jomt_dataType;
+  int64_t jni_bufferSize = jomt_bufferSize;
+  int64_t jni_rank = jomt_rank;
+  int64_t jni_numElems = jomt_numElems;
+
+  OMTensor *jni_omt = NULL;
+  if (jni_strides != NULL) {
+    /* Print debug info on what we got from the Java side */
+    OMT_DEBUG(i, jni_numElems, jni_data, jni_shape, jni_strides, jni_dataType,
+        jni_bufferSize, jni_rank, 0);
+
+    /* Create native OMTensor struct. Note jni_data is owned by the
+     * Java ByteBuffer object. So here the OMTensor is created with
+     * owning=false. Therefore, later when we call omTensorListDestroy
+     * the data buffer will not be freed. Java GC is responsible for
+     * freeing the data buffer when it garbage collects the ByteBuffer
+     * in the OMTensor.
+     */
+    jni_omt =
+        omTensorCreate(jni_data, (int64_t *)jni_shape, jni_rank, jni_dataType);
+
+    /* Release reference to the strides Java object */
+    (*env)->ReleaseLongArrayElements(env, jomt_strides, jni_strides, 0);
+  }
+
+  /* Release reference to the shape Java object. This is allowed while an
+   * exception is pending.
+   */
+  (*env)->ReleaseLongArrayElements(env, jomt_shape, jni_shape, 0);
+
+  JNI_CALL(env, , jni_strides != NULL, japi->jecpt_cls,
+      "omt[%d]:jni_strides=%p", i, jni_strides);
+  LIB_CALL(, jni_omt != NULL, env, japi->jecpt_cls, "omt[%d]:jni_omt=%p", i,
+      jni_omt);
+
+  return jni_omt;
+}
+
 /* Convert Java object to native data structure
  *
  *          +---------------------------+
@@ -393,120 +482,44 @@ OMTensorList *omtl_java_to_native(
       jomtl_omtn >= 0 && jomtl_omtn <= INT_MAX, japi->jecpt_cls,
       "jomtl_omtn=%ld", jomtl_omtn);
 
-  /* Allocate memory for holding each Java omt object and OMTensor pointers
-   * for constructing native OMTensor array
-   *
-   * jobj_omts are the pointers to the Java OMTensor objects. They are used
-   * to make JNI calls on the OMTensors to retrieve their internal fields
-   * such as data, shape, strides, etc.
+  /* Allocate memory for holding OMTensor pointers for constructing native
+   * OMTensor array
    *
    * jni_omts are the pointers to the native OMTensor structs we construct,
    * filled in with fields we retrieved from the corresponding Java OMTensor
    * objects, and then given to the native OMTensorList struct.
    */
-  LIB_TYPE_VAR_CALL(jobject *, jobj_omts, malloc(jomtl_omtn * sizeof(jobject)),
-      jobj_omts != NULL, env, japi->jecpt_cls, "jobj_omts=%p", jobj_omts);
   LIB_TYPE_VAR_CALL(OMTensor **, jni_omts,
       malloc(jomtl_omtn * sizeof(OMTensor *)), jni_omts != NULL, env,
       japi->jecpt_cls, "jni_omts=%p", jni_omts);
 
-  /* Loop through all the jomtl_omts  */
-  for (int i = 0; i < jomtl_omtn; i++) {
-    JNI_VAR_CALL(env, jobj_omts[i],
-        (*env)->GetObjectArrayElement(env, jomtl_omts, i), jobj_omts[i] != NULL,
-        japi->jecpt_cls, "jobj_omts[%d]=%p", i, jobj_omts[i]);
-
-    /* Get data, shape, strides, dataType, rank, and bufferSize by calling
-     * corresponding methods
-     */
-    JNI_TYPE_VAR_CALL(env, jobject, jomt_data,
-        (*env)->CallObjectMethod(env, jobj_omts[i], japi->jomt_getData),
-        jomt_data != NULL, japi->jecpt_cls, "omt[%d]:data=%p", i, jomt_data);
-    JNI_TYPE_VAR_CALL(env, jobject, jomt_shape,
-        (*env)->CallObjectMethod(env, jobj_omts[i], japi->jomt_getShape),
-        jomt_shape != NULL, japi->jecpt_cls, "omt[%d]:shape=%p", i, jomt_shape);
-    JNI_TYPE_VAR_CALL(env, jobject, jomt_strides,
-        (*env)->CallObjectMethod(env, jobj_omts[i], japi->jomt_getStrides),
-        jomt_strides != NULL, japi->jecpt_cls, "omt[%d]:strides=%p", i,
-        jomt_strides);
-    JNI_TYPE_VAR_CALL(env, jint, jomt_dataType,
-        (*env)->CallIntMethod(env, jobj_omts[i], japi->jomt_getDataType),
-        jomt_dataType != ONNX_TYPE_UNDEFINED, japi->jecpt_cls,
-        "omt[%d]:dataType=%d", i, jomt_dataType);
-    JNI_TYPE_VAR_CALL(env, jlong, jomt_bufferSize,
-        (*env)->CallLongMethod(env, jobj_omts[i], japi->jomt_getBufferSize),
-        jomt_bufferSize >= 0, japi->jecpt_cls, "omt[%d]:bufferSize=%ld", i,
-        jomt_bufferSize);
-    JNI_TYPE_VAR_CALL(env, jlong, jomt_rank,
-        (*env)->CallLongMethod(env, jobj_omts[i], japi->jomt_getRank),
-        jomt_rank >= 0, japi->jecpt_cls, "omt[%d]:rank=%ld", i, jomt_rank);
-    JNI_TYPE_VAR_CALL(env, jlong, jomt_numElems,
-        (*env)->CallLongMethod(env, jobj_omts[i], japi->jomt_getNumElems),
-        jomt_numElems >= 0, japi->jecpt_cls, "omt[%d]:numElems=%ld", i,
-        jomt_numElems);
-
-    /* Get direct buffer associated with data */
-    JNI_TYPE_VAR_CALL(env, void *, jni_data,
-        (*env)->GetDirectBufferAddress(env, jomt_data), jni_data != NULL,
-        japi->jecpt_cls, "omt[%d]:jni_data=%p", i, jni_data);
-
-    /* Get long array associated with data shape and strides */
-    JNI_TYPE_VAR_CALL(env, jlong *, jni_shape,
-        (*env)->GetLongArrayElements(env, jomt_shape, NULL), jni_shape != NULL,
-        japi->jecpt_cls, "omt[%d]:jni_shape=%p", i, jni_shape);
-    JNI_TYPE_VAR_CALL(env, jlong *, jni_strides,
-        (*env)->GetLongArrayElements(env, jomt_strides, NULL),
-        jni_strides != NULL, japi->jecpt_cls, "omt[%d]:jni_strides=%p", i,
-        jni_strides);
-
-    /* Primitive type int and long can be directly used */
-    int jni_dataType = jomt_dataType;
-    int64_t jni_bufferSize = jomt_bufferSize;
-    int64_t jni_rank = jomt_rank;
-    int64_t jni_numElems = jomt_numElems;
-
-    /* Print debug info on what we got from the Java side */
-    OMT_DEBUG(i, jni_numElems, jni_data, jni_shape, jni_strides, jni_dataType,
-        jni_bufferSize, jni_rank, 0);
-
-    /* Create native OMTensor struct. Note jni_data is owned by the
-     * Java ByteBuffer object. So here the OMTensor is created with
-     * owning=false. Therefore, later when we call omTensorListDestroy
-     * the data buffer will not be freed. Java GC is responsible for
-     * freeing the data buffer when it garbage collects the ByteBuffer
-     * in the OMTensor.
-     */
-    LIB_VAR_CALL(jni_omts[i],
-        omTensorCreate(jni_data, (int64_t *)jni_shape, jni_rank, jni_dataType),
-        jni_omts[i] != NULL, env, japi->jecpt_cls, "omt[%d]:jni_omts=%p", i,
-        jni_omts[i]);
-
-    /* Release reference to the shape and strides Java objects */
-    JNI_CALL(env,
-        (*env)->ReleaseLongArrayElements(env, jomt_shape, jni_shape, 0), 1,
-        NULL, "");
-    JNI_CALL(env,
-        (*env)->ReleaseLongArrayElements(env, jomt_strides, jni_strides, 0), 1,
-        NULL, "");
-  }
-
-  /* We have constructed the native OMTensor structs so the pointers
-   * to the corresponding Java OMTensor objects used for retrieving
-   * their internal fields are no longer needed.
+  /* Loop through all the jomtl_omts. Stop if one cannot be converted, in
+   * which case a Java exception has been thrown.
    */
-  free(jobj_omts);
+  int n = 0;
+  while (n < jomtl_omtn && (jni_omts[n] = omt_java_to_native(
+                                env, jomtl_omts, n, japi)) != NULL)
+    n++;
 
   /* Create OMTensorList to be constructed and passed to the model
    * shared library.
    */
-  LIB_TYPE_VAR_CALL(OMTensorList *, jni_omtl,
-      omTensorListCreate(jni_omts, (int64_t)jomtl_omtn), jni_omtl != NULL, env,
-      japi->jecpt_cls, "jni_omtl=%p", jni_omtl);
+  OMTensorList *jni_omtl =
+      n == jomtl_omtn ? omTensorListCreate(jni_omts, (int64_t)n) : NULL;
+
+  /* Without a list, nobody else releases the native OMTensor structs */
+  if (jni_omtl == NULL)
+    for (int i = 0; i < n; i++)
+      omTensorDestroy(jni_omts[i]);
 
   /* omTensorListCreate makes a copy of the tensor list, so we must free the
      list that we allocateed. */
   free(jni_omts);
 
+  if (n < jomtl_omtn)
+    return NULL;
+  LIB_CALL(, jni_omtl != NULL, env, japi->jecpt_cls, "jni_omtl=%p", jni_omtl);
+
   return jni_omtl;
 }
 
@@ -546,6 +559,9 @@ OMTensorList *omtl_java_to_native(
 jobject omtl_native_to_java(
     JNIEnv *env, jclass cls, OMTensorList *jni_omtl, jniapi_t *japi) {
 
+  /* The model returns NULL if it failed */
+  LIB_CALL(, jni_omtl != NULL, env, japi->jecpt_cls, "jni_omtl=%p", jni_omtl);
+
   /* Get the OMTensor array in the OMTensorList */
   LIB_TYPE_VAR_CALL(OMTensor **, jni_omts, omTensorListGetOmtArray(jni_omtl),
       jni_omts != NULL, env, japi->jecpt_cls, "jni_omts=%p", jni_omts);
@@ -691,13 +707,12 @@ JNIEXPORT jobject JNICALL Java_com_ibm_onnxmlir_OMModel_main_1graph_1jni(
       "jni_iomtl=%p", jni_iomtl);
 
   /* Call model inference entry point */
-  LIB_TYPE_VAR_CALL(OMTensorList *, jni_oomtl, run_main_graph(jni_iomtl),
-      jni_oomtl != NULL, env, japi->jecpt_cls, "jni_oomtl=%p", jni_oomtl);
+  OMTensorList *jni_oomtl = run_main_graph(jni_iomtl);
 
-  /* Convert native data structure to Java object */
-  CHECK_CALL(jobject, java_oomtl,
-      omtl_native_to_java(env, cls, jni_oomtl, japi), java_oomtl != NULL,
-      "java_oomtl=%p", java_oomtl);
+  /* Convert native data structure to Java object. If the model failed
+   * or its result cannot be converted, a Java exception is thrown.
+   */
+  jobject java_oomtl = omtl_native_to_java(env, cls, jni_oomtl, japi);
 
   /* Free intermediate data structures and return Java object */
   omTensorListDestroy(jni_iomtl);
@@ -816,16 +831,18 @@ JNIEXPORT jstring JNICALL Java_com_ibm_onnxmlir_OMModel_input_1signature_1jni(
   LOG_PRINTF(LOG_DEBUG, "ep(%d):%s", strlen(epptr), epptr);
 
   /* Call model input signature API */
-  LIB_TYPE_VAR_CALL(const char *, jni_isig, omInputSignature(epptr),
-      jni_isig != NULL, env, jecpt_cls, "jni_isig=%p", jni_isig);
+  const char *jni_isig = omInputSignature(epptr);
 
   /* On z/OS, free the EBCDIC entry point name no longer needed */
 #ifdef __MVS__
   free(epptr);
 #endif
 
-  /* Release reference to the signature Java String object */
+  /* Release reference to the signature Java String object. Do so before
+   * looking at the result so that it is also released on failure.
+   */
   JNI_CALL(env, (*env)->ReleaseStringUTFChars(env, ep, jni_ep), 1, NULL, "");
+  LIB_CALL(, jni_isig != NULL, env, jecpt_cls, "jni_isig=%p", jni_isig);
 
   /* Output signature in hex and string format for debugging */
   HEX_DEBUG("isig", jni_isig, strlen(jni_isig));
@@ -878,16 +895,18 @@ JNIEXPORT jstring JNICALL Java_com_ibm_onnxmlir_OMModel_output_1signature_1jni(
   LOG_PRINTF(LOG_DEBUG, "ep(%d):%s", strlen(epptr), epptr);
 
   /* Call model output signature API */
-  LIB_TYPE_VAR_CALL(const char *, jni_osig, omOutputSignature(epptr),
-      jni_osig != NULL, env, jecpt_cls, "jni_osig=%p", jni_osig);
+  const char *jni_osig = omOutputSignature(epptr);
 
   /* On z/OS, free the EBCDIC entry point name no longer needed */
 #ifdef __MVS__
   free(epptr);
 #endif
 
-  /* Release reference to the signature Java String object */
+  /* Release reference to the signature Java String object. Do so before
+   * looking at the result so that it is also released on failure.
+   */
   JNI_CALL(env, (*env)->ReleaseStringUTFChars(env, ep, jni_ep), 1, NULL, "");
+  LIB_CALL(, jni_osig != NULL, env, jecpt_cls, "jni_osig=%p", jni_osig);
 
   /* Output signature in hex and string format for debugging */
   HEX_DEBUG("osig", jni_osig, strlen(jni_osig));
-- 
2.43.0


From 33d6a9e348b4a646df6cf33b32af038cbde562af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:16 +0000
Subject: [PATCH 45/90] fix: return empty tensors and empty lists of outputs to
 Java

A tensor without elements or a model without outputs was treated as an error.
---
 src/Runtime/jni/jniwrapper.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/Runtime/jni/jniwrapper.c b/src/Runtime/jni/jniwrapper.c
index 056b20f..6f113d2 100644
--- a/src/Runtime/jni/jniwrapper.c
+++ b/src/Runtime/jni/jniwrapper.c
@@ -562,14 +562,15 @@ jobject omtl_native_to_java(
   /* The model returns NULL if it failed */
   LIB_CALL(, jni_omtl != NULL, env, japi->jecpt_cls, "jni_omtl=%p", jni_omtl);
 
-  /* Get the OMTensor array in the OMTensorList */
-  LIB_TYPE_VAR_CALL(OMTensor **, jni_omts, omTensorListGetOmtArray(jni_omtl),
-      jni_omts != NULL, env, japi->jecpt_cls, "jni_omts=%p", jni_omts);
-
   /* Get the number of OMTensors in the OMTensorList */
   LIB_TYPE_VAR_CALL(int64_t, jni_omtn, omTensorListGetSize(jni_omtl),
-      jni_omtn > 0 && jni_omtn <= INT_MAX, env, japi->jecpt_cls, "jni_omtn=%ld",
-      jni_omtn);
+      jni_omtn >= 0 && jni_omtn <= INT_MAX, env, japi->jecpt_cls,
+      "jni_omtn=%ld", jni_omtn);
+
+  /* Get the OMTensor array in the OMTensorList, NULL for an empty list */
+  LIB_TYPE_VAR_CALL(OMTensor **, jni_omts, omTensorListGetOmtArray(jni_omtl),
+      jni_omts != NULL || jni_omtn == 0, env, japi->jecpt_cls, "jni_omts=%p",
+      jni_omts);
 
   /* Create OMTensor java object array */
   JNI_TYPE_VAR_CALL(env, jobjectArray, jobj_omts,
@@ -591,7 +592,7 @@ jobject omtl_native_to_java(
         omTensorGetDataType(jni_omts[i]), jni_dataType != ONNX_TYPE_UNDEFINED,
         env, japi->jecpt_cls, "omt[%d]:dataType=%d", i, jni_dataType);
     LIB_TYPE_VAR_CALL(int64_t, jni_bufferSize,
-        omTensorGetBufferSize(jni_omts[i]), jni_bufferSize > 0, env,
+        omTensorGetBufferSize(jni_omts[i]), jni_bufferSize >= 0, env,
         japi->jecpt_cls, "omt[%ld]:bufferSize=%ld", i, jni_bufferSize);
     LIB_TYPE_VAR_CALL(int64_t, jni_rank, omTensorGetRank(jni_omts[i]),
         jni_rank >= 0, env, japi->jecpt_cls, "omt[%d]:rank=%ld", i, jni_rank);
@@ -599,7 +600,7 @@ jobject omtl_native_to_java(
         jni_owning == 0 || jni_owning == 1, env, japi->jecpt_cls,
         "omt[%d]:owning=ld", i, jni_owning);
     LIB_TYPE_VAR_CALL(int64_t, jni_numElems, omTensorGetNumElems(jni_omts[i]),
-        jni_numElems > 0, env, japi->jecpt_cls, "omt[%d]:numElems=%ld", i,
+        jni_numElems >= 0, env, japi->jecpt_cls, "omt[%d]:numElems=%ld", i,
         jni_numElems);
 
     /* Print debug info on what we got from the native side */
-- 
2.43.0


From 7fc2c77dc7b4acd5fac891df20a7796772775a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:16 +0000
Subject: [PATCH 46/90] fix: throw for null arguments in the JNI wrapper

A null list or entry point name was passed on to JNI functions, which stops the Java virtual machine.
---
 src/Runtime/jni/jniwrapper.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Runtime/jni/jniwrapper.c b/src/Runtime/jni/jniwrapper.c
index 6f113d2..7df4445 100644
--- a/src/Runtime/jni/jniwrapper.c
+++ b/src/Runtime/jni/jniwrapper.c
@@ -471,6 +471,9 @@ static OMTensor *omt_java_to_native(
 OMTensorList *omtl_java_to_native(
     JNIEnv *env, jclass cls, jobject java_omtl, jniapi_t *japi) {
 
+  /* Java code may give null, which must not be passed on to JNI calls */
+  LIB_CALL(, java_omtl != NULL, env, japi->jecpt_cls, "java_omtl=%p", java_omtl);
+
   /* Get OMTensor array Java object in OMTensorList */
   JNI_TYPE_VAR_CALL(env, jobjectArray, jomtl_omts,
       (*env)->CallObjectMethod(env, java_omtl, japi->jomtl_getOmtArray),
@@ -815,6 +818,9 @@ JNIEXPORT jstring JNICALL Java_com_ibm_onnxmlir_OMModel_input_1signature_1jni(
       (*env)->FindClass(env, jnistr[CLS_JAVA_LANG_EXCEPTION]),
       jecpt_cls != NULL, NULL, "Class java/lang/Exception not found");
 
+  /* Java code may give null, which must not be passed on to JNI calls */
+  LIB_CALL(, ep != NULL, env, jecpt_cls, "ep=%p", ep);
+
   /* Get reference to the signature Java String object */
   JNI_TYPE_VAR_CALL(env, const char *, jni_ep,
       (*env)->GetStringUTFChars(env, ep, NULL), jni_ep != NULL, jecpt_cls,
@@ -879,6 +885,9 @@ JNIEXPORT jstring JNICALL Java_com_ibm_onnxmlir_OMModel_output_1signature_1jni(
       (*env)->FindClass(env, jnistr[CLS_JAVA_LANG_EXCEPTION]),
       jecpt_cls != NULL, NULL, "Class java/lang/Exception not found");
 
+  /* Java code may give null, which must not be passed on to JNI calls */
+  LIB_CALL(, ep != NULL, env, jecpt_cls, "ep=%p", ep);
+
   /* Get reference to the signature Java String object */
   JNI_TYPE_VAR_CALL(env, const char *, jni_ep,
       (*env)->GetStringUTFChars(env, ep, NULL), jni_ep != NULL, jecpt_cls,
-- 
2.43.0


From cb8e685dd9cf2c8edeafc77294c016f1d5486225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:16 +0000
Subject: [PATCH 47/90] fix: start with an empty string when logging an empty
 array

The end mark was appended to an uninitialised buffer.
---
 src/Runtime/jni/jnilog.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Runtime/jni/jnilog.h b/src/Runtime/jni/jnilog.h
index 1b16a18..295e8da 100644
--- a/src/Runtime/jni/jnilog.h
+++ b/src/Runtime/jni/jnilog.h
@@ -35,6 +35,7 @@ enum { LOG_TRACE, LOG_DEBUG, LOG_INFO, LOG_WARNING, LOG_ERROR, LOG_FATAL };
      * space will come from the '\0' of the previous string.                   \
      */                                                                        \
     int __i = 0, __j = sizeof(buf) - 5, __k, __l = MIN((n), LOG_MAX_NUM);      \
+    *__p = '\0'; /* Nothing is printed for an empty array. */                  \
     /* j is the available number of chars including '\0'. k is the             \
      * number of chars printed without '\0'. So as long as k < j,              \
      * it means the output, with a trailing '\0', fits in the buffer.          \
-- 
2.43.0


From 2b0640c15e0445531d6322bd8fff11dba713dbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:31 +0000
Subject: [PATCH 48/90] fix: release everything when a run from Python fails

Inputs already converted, the lists of inputs and outputs and copied input data were left behind when an exception was thrown; the creation of a tensor of strings was not checked.
---
 src/Runtime/python/PyExecutionSession.cpp | 91 +++++++++++++++--------
 1 file changed, 58 insertions(+), 33 deletions(-)

diff --git a/src/Runtime/python/PyExecutionSession.cpp b/src/Runtime/python/PyExecutionSession.cpp
index 2c0efdb..e8a2516 100644
--- a/src/Runtime/python/PyExecutionSession.cpp
+++ b/src/Runtime/python/PyExecutionSession.cpp
@@ -13,6 +13,8 @@
 //
 //===----------------------------------------------------------------------===//
 
+#include <memory>
+
 #include "PyExecutionSession.hpp"
 #include "PyFloat16.hpp"
 #include "src/Runtime/OMTensorHelper.hpp"
@@ -52,6 +54,21 @@ struct npy_format_descriptor<onnx_mlir::float_16> {
 
 namespace onnx_mlir {
 
+// Owners that release buffers, tensors and lists of tensors on every path,
+// including the ones taken when an exception is thrown.
+struct BufferDeleter {
+  void operator()(void *ptr) const { free(ptr); }
+};
+struct OMTensorDeleter {
+  void operator()(OMTensor *tensor) const { omTensorDestroy(tensor); }
+};
+struct OMTensorListDeleter {
+  void operator()(OMTensorList *list) const { omTensorListDestroy(list); }
+};
+using BufferOwner = std::unique_ptr<void, BufferDeleter>;
+using OMTensorOwner = std::unique_ptr<OMTensor, OMTensorDeleter>;
+using OMTensorListOwner = std::unique_ptr<OMTensorList, OMTensorListDeleter>;
+
 //
 // Generate OMTensor's buffer for string input in pyArray
 //
@@ -147,7 +164,7 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
 
   // 1. Process inputs.
   TIMING_INIT_START(process_input);
-  std::vector<OMTensor *> omts;
+  std::vector<OMTensorOwner> omts;
   if (inputsPyArray.size() != shapesPyArray.size())
     throw onnx_mlir::ExecutionSessionException(
         "numbers of inputs and shapes should be the same");
@@ -163,12 +180,14 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
       throw onnx_mlir::ExecutionSessionException(
           "Expect contiguous python array.");
     void *dataPtr;
+    BufferOwner ownedBuffer; // Until the OMTensor owns it.
     int64_t ownData = 0;
     if (inputPyArray.writeable()) {
       dataPtr = inputPyArray.mutable_data();
     } else {
       // If data is not writable, copy them to a writable buffer.
       void *copiedData = (void *)malloc(inputPyArray.nbytes());
+      ownedBuffer.reset(copiedData);
       if (!copiedData)
         throw onnx_mlir::ExecutionSessionException(
             "Failed to allocate data buffer for copied data.");
@@ -236,46 +255,59 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
              << std::endl;
       throw onnx_mlir::ExecutionSessionException(errStr.str());
     }
-    OMTensor *inputOMTensor = NULL;
+    OMTensorOwner inputOMTensor;
     if (dtype == ONNX_TYPE_STRING) {
       void *tensorBuffer = generateOMTensorBufferForStringData(inputPyArray);
+      ownedBuffer.reset(tensorBuffer);
       if (tensorBuffer == NULL)
         throw onnx_mlir::ExecutionSessionException(
             "fail to allocate Tensor buffer for string data");
-      inputOMTensor = omTensorCreateWithOwnership(
-          tensorBuffer, shape, ndim, dtype, /*own_data=*/true);
-
-      omTensorSetStridesWithPyArrayStrides(inputOMTensor, stride);
+      inputOMTensor.reset(omTensorCreateWithOwnership(
+          tensorBuffer, shape, ndim, dtype, /*own_data=*/true));
+      if (!inputOMTensor)
+        throw onnx_mlir::ExecutionSessionException(
+            "fail to allocate Tensor for input data");
+      omTensorSetStridesWithPyArrayStrides(inputOMTensor.get(), stride);
       // omTensorPrint("PyExecutionSession::pyRun: %t %d", inputOMTensor);
     } else if (std::is_same<int64_t, pybind11::ssize_t>::value) {
-      inputOMTensor =
-          omTensorCreateWithOwnership(dataPtr, shape, ndim, dtype, ownData);
+      inputOMTensor.reset(
+          omTensorCreateWithOwnership(dataPtr, shape, ndim, dtype, ownData));
       if (!inputOMTensor)
         throw onnx_mlir::ExecutionSessionException(
             "fail to allocate Tensor for input data");
-      omTensorSetStridesWithPyArrayStrides(inputOMTensor, stride);
+      omTensorSetStridesWithPyArrayStrides(inputOMTensor.get(), stride);
     } else {
       std::vector<int64_t> safeShape(shape, shape + ndim);
       std::vector<int64_t> safeStrides(stride, stride + ndim);
-      inputOMTensor = omTensorCreateWithOwnership(
-          dataPtr, safeShape.data(), ndim, dtype, ownData);
+      inputOMTensor.reset(omTensorCreateWithOwnership(
+          dataPtr, safeShape.data(), ndim, dtype, ownData));
       if (!inputOMTensor)
         throw onnx_mlir::ExecutionSessionException(
             "fail to allocate Tensor for input data");
-      omTensorSetStridesWithPyArrayStrides(inputOMTensor, safeStrides.data());
+      omTensorSetStridesWithPyArrayStrides(
+          inputOMTensor.get(), safeStrides.data());
     }
-    omts.emplace_back(inputOMTensor);
+    // The OMTensor owns its buffer from now on.
+    ownedBuffer.release();
+    omts.emplace_back(std::move(inputOMTensor));
   }
   TIMING_STOP_PRINT(process_input);
 
   // 2. Call entry point: create list.
   TIMING_INIT_START(inference);
-  OMTensorList *wrappedInput = omTensorListCreate(omts.data(), omts.size());
+  std::vector<OMTensor *> omtPtrs;
+  for (OMTensorOwner &omt : omts)
+    omtPtrs.emplace_back(omt.get());
+  OMTensorListOwner wrappedInput(
+      omTensorListCreate(omtPtrs.data(), omtPtrs.size()));
   if (!wrappedInput)
     throw onnx_mlir::ExecutionSessionException(
         "fail to allocate Tensor List for input data");
+  // The list owns its tensors from now on.
+  for (OMTensorOwner &omt : omts)
+    omt.release();
   // Call
-  OMTensorList *wrappedOutput = nullptr;
+  OMTensorListOwner wrappedOutput;
   {
     // TODO: Consider releasing Python's GIL during inference to allow other
     // Python threads to run concurrently. This would improve performance in
@@ -283,15 +315,14 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
     // code.
     //     py::gil_scoped_release release;  // Release GIL
 
-    wrappedOutput = runImplementation(wrappedInput, useSignalHandler);
+    wrappedOutput.reset(
+        runImplementation(wrappedInput.get(), useSignalHandler));
   } // TODO from above: GIL would automatically be reacquired here.
   TIMING_STOP_PRINT(inference);
 
   // Check if inference succeeded and returned valid output
-  if (!wrappedOutput) {
-    omTensorListDestroy(wrappedInput);
+  if (!wrappedOutput)
     throw onnx_mlir::ExecutionSessionException("error while runing the model");
-  }
 
   // 3. Process outputs.
   TIMING_INIT_START(process_output);
@@ -300,11 +331,9 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
   // creating two capsules for the same pointer. Otherwise, it causes double
   // free error.
   std::map<void *, py::capsule> mapPtrCapsule{};
-  for (int64_t i = 0; i < omTensorListGetSize(wrappedOutput); i++) {
-    auto *omt = omTensorListGetOmtByIndex(wrappedOutput, i);
+  for (int64_t i = 0; i < omTensorListGetSize(wrappedOutput.get()); i++) {
+    auto *omt = omTensorListGetOmtByIndex(wrappedOutput.get(), i);
     if (!omt) {
-      omTensorListDestroy(wrappedOutput);
-      omTensorListDestroy(wrappedInput);
       std::stringstream errStr;
       errStr << "Failed to get output tensor at index " << i;
       throw onnx_mlir::ExecutionSessionException(errStr.str());
@@ -316,8 +345,6 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
     const char *dtypeName =
         omDataTypeToNumpyDtypeName(omTensorGetDataType(omt));
     if (!dtypeName) {
-      omTensorListDestroy(wrappedOutput);
-      omTensorListDestroy(wrappedInput);
       throw onnx_mlir::ExecutionSessionException(
           "Unsupported ONNX type in OMTensor: " +
           std::to_string(omTensorGetDataType(omt)));
@@ -381,11 +408,11 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
   TIMING_STOP_PRINT(process_output);
 
   TIMING_INIT_START(delete_out_lists);
-  omTensorListDestroy(wrappedOutput);
+  wrappedOutput.reset();
   TIMING_STOP_PRINT(delete_out_lists);
 
   TIMING_INIT_START(delete_in_lists);
-  omTensorListDestroy(wrappedInput);
+  wrappedInput.reset();
   TIMING_STOP_PRINT(delete_in_lists);
 
   return outputPyArrays;
@@ -399,12 +426,12 @@ std::vector<py::array> PyExecutionSession::pyFillInputDebug(
     const std::string &defaultLowerBound, const std::string &defaultUpperBound,
     int seed, bool verbose) {
   // fillInputDebug throws ExecutionSessionException on failure.
-  OMTensorList *inputs =
+  OMTensorListOwner inputs(
       fillInputDebug(shapeInfo.empty() ? nullptr : shapeInfo.c_str(),
           valueInfo.empty() ? nullptr : valueInfo.c_str(),
           defaultLowerBound.empty() ? nullptr : defaultLowerBound.c_str(),
           defaultUpperBound.empty() ? nullptr : defaultUpperBound.c_str(), seed,
-          verbose);
+          verbose));
 
   // Convert the C++ OMTensorList to a Python list of numpy arrays so that:
   // 1. Python callers can inspect and modify individual inputs before
@@ -413,21 +440,19 @@ std::vector<py::array> PyExecutionSession::pyFillInputDebug(
   // 3. Memory ownership transfers to numpy/Python; OMTensorList is destroyed
   //    below once all tensors have been copied out.
   std::vector<py::array> result;
-  for (int64_t i = 0; i < omTensorListGetSize(inputs); i++) {
-    auto *omt = omTensorListGetOmtByIndex(inputs, i);
+  for (int64_t i = 0; i < omTensorListGetSize(inputs.get()); i++) {
+    auto *omt = omTensorListGetOmtByIndex(inputs.get(), i);
     auto shape = std::vector<int64_t>(
         omTensorGetShape(omt), omTensorGetShape(omt) + omTensorGetRank(omt));
     const char *dtypeName =
         omDataTypeToNumpyDtypeName(omTensorGetDataType(omt));
     if (!dtypeName) {
-      omTensorListDestroy(inputs);
       throw onnx_mlir::ExecutionSessionException(
           "pyFillInputDebug: unsupported tensor type at index " +
           std::to_string(i));
     }
     result.emplace_back(copyTensorToPyArray(py::dtype(dtypeName), shape, omt));
   }
-  omTensorListDestroy(inputs);
   return result;
 }
 
-- 
2.43.0


From 34d7d1d6d0cc3038a491f279a90b8e6b7f4a4485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:15 +0000
Subject: [PATCH 49/90] fix: release a buffer shared by outputs once in the
 Python session

Outputs sharing a buffer were released twice when their data was copied, when an exception was thrown, or when their data started at different places.
---
 src/Runtime/python/PyExecutionSession.cpp | 28 ++++++++++++++++-------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/Runtime/python/PyExecutionSession.cpp b/src/Runtime/python/PyExecutionSession.cpp
index e8a2516..c979e3e 100644
--- a/src/Runtime/python/PyExecutionSession.cpp
+++ b/src/Runtime/python/PyExecutionSession.cpp
@@ -330,8 +330,20 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
   // Maintain an 1-to-1 mapping between data pointers and py::capsules, to avoid
   // creating two capsules for the same pointer. Otherwise, it causes double
   // free error.
+  // Tensors sharing a buffer share its allocated pointer.
   std::map<void *, py::capsule> mapPtrCapsule{};
-  for (int64_t i = 0; i < omTensorListGetSize(wrappedOutput.get()); i++) {
+  // For the same reason only one of the tensors sharing a buffer may own it.
+  int64_t outputNum = omTensorListGetSize(wrappedOutput.get());
+  for (int64_t i = 0; i < outputNum; i++) {
+    auto *omt = omTensorListGetOmtByIndex(wrappedOutput.get(), i);
+    for (int64_t j = 0; j < i && omt && omTensorGetOwning(omt); j++) {
+      auto *other = omTensorListGetOmtByIndex(wrappedOutput.get(), j);
+      if (other && omTensorGetOwning(other) &&
+          omTensorGetAllocatedPtr(other) == omTensorGetAllocatedPtr(omt))
+        omTensorSetOwning(omt, false);
+    }
+  }
+  for (int64_t i = 0; i < outputNum; i++) {
     auto *omt = omTensorListGetOmtByIndex(wrappedOutput.get(), i);
     if (!omt) {
       std::stringstream errStr;
@@ -370,7 +382,8 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
     }
     // Check if the return value is a static constant, which cannot be freed and
     // thus would have been created with the "owning" flag being false.
-    if (omTensorGetOwning(omt)) {
+    auto sharedCapsule = mapPtrCapsule.find(omtAllocPtr);
+    if (omTensorGetOwning(omt) || sharedCapsule != mapPtrCapsule.end()) {
       if (forceOutputDataCopy) {
         // force copy of result, leaving ownership on so that it be destroyed at
         // the end.
@@ -380,19 +393,18 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
         // time. Create the capsule that points to the data to be freed
         // (allocated pointer).
         py::capsule free_data_with_allocate_ptr;
-        auto it = mapPtrCapsule.find(omtDataPtr);
-        if (it != mapPtrCapsule.end()) {
-          free_data_with_allocate_ptr = it->second;
+        if (sharedCapsule != mapPtrCapsule.end()) {
+          free_data_with_allocate_ptr = sharedCapsule->second;
         } else {
           free_data_with_allocate_ptr = py::capsule(
               omtAllocPtr, /* Address that will be passed to lambda function. */
               [](void *ptr) { /* Lambda function that performs the freeing. */
                 free(ptr);
               });
-          mapPtrCapsule.try_emplace(omtDataPtr, free_data_with_allocate_ptr);
+          // Set owning to false as we migrate the ownership to python
+          omTensorSetOwning(omt, false);
+          mapPtrCapsule.try_emplace(omtAllocPtr, free_data_with_allocate_ptr);
         }
-        // Set owning to false as we migrate the ownership to python
-        omTensorSetOwning(omt, false);
         // Pass the py::capsule to the numpy array for proper bookkeeping.
         outputPyArrays.emplace_back(py::array(dtype, shape,
           omtDataPtr, // Data pointer used to access the values.
-- 
2.43.0


From c81d05acc652e824fc596e0d386ec900c7ea8f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:15 +0000
Subject: [PATCH 50/90] fix: return tensors of strings to Python as arrays of
 objects

They were returned as arrays of NumPy strings of length zero over a buffer of pointers, or copied as object pointers into such an array.
---
 include/onnx-mlir/Runtime/OnnxDataTypeMetaData.inc | 2 +-
 src/Runtime/python/PyExecutionSession.cpp          | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/onnx-mlir/Runtime/OnnxDataTypeMetaData.inc b/include/onnx-mlir/Runtime/OnnxDataTypeMetaData.inc
index 9e99a35..0a6d3c0 100644
--- a/include/onnx-mlir/Runtime/OnnxDataTypeMetaData.inc
+++ b/include/onnx-mlir/Runtime/OnnxDataTypeMetaData.inc
@@ -26,7 +26,7 @@ OM_TYPE_METADATA_DEF(ONNX_TYPE_UINT16,         4,  sizeof(uint16_t), "uint16_t",
 OM_TYPE_METADATA_DEF(ONNX_TYPE_INT16,          5,  sizeof(int16_t),  "int16_t",         "i16",         "int16")
 OM_TYPE_METADATA_DEF(ONNX_TYPE_INT32,          6,  sizeof(int32_t),  "int32_t",         "i32",         "int32")
 OM_TYPE_METADATA_DEF(ONNX_TYPE_INT64,          7,  sizeof(int64_t),  "int64_t",         "i64",         "int64")
-OM_TYPE_METADATA_DEF(ONNX_TYPE_STRING,         8,  sizeof(const char *), "const char *","string",      "str")
+OM_TYPE_METADATA_DEF(ONNX_TYPE_STRING,         8,  sizeof(const char *), "const char *","string",      "object")
 OM_TYPE_METADATA_DEF(ONNX_TYPE_BOOL,           9,  sizeof(bool),     "_Bool",           "i1",          "bool_")
 OM_TYPE_METADATA_DEF(ONNX_TYPE_FLOAT16,        10, 2,                "_Float16",        "f16",         "float16")
 OM_TYPE_METADATA_DEF(ONNX_TYPE_DOUBLE,         11, sizeof(double),   "double",          "f64",         "float64")
diff --git a/src/Runtime/python/PyExecutionSession.cpp b/src/Runtime/python/PyExecutionSession.cpp
index c979e3e..02905b6 100644
--- a/src/Runtime/python/PyExecutionSession.cpp
+++ b/src/Runtime/python/PyExecutionSession.cpp
@@ -384,8 +384,9 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
     // thus would have been created with the "owning" flag being false.
     auto sharedCapsule = mapPtrCapsule.find(omtAllocPtr);
     if (omTensorGetOwning(omt) || sharedCapsule != mapPtrCapsule.end()) {
-      if (forceOutputDataCopy) {
-        // force copy of result, leaving ownership on so that it be destroyed at
+      if (forceOutputDataCopy ||
+          omTensorGetDataType(omt) == ONNX_TYPE_STRING) {
+        // Force copy of result (strings have to become Python objects), leaving ownership on so that it be destroyed at
         // the end.
         outputPyArrays.emplace_back(copyTensorToPyArray(dtype, shape, omt));
       } else {
-- 
2.43.0


From 7095b7ef2220ca968d0531f4a7c37506b45ce924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:15 +0000
Subject: [PATCH 51/90] fix: pass the strides of the contiguous data from
 Python

The data of an array that is not contiguous was passed as a contiguous copy together with the strides of the original.
---
 src/Runtime/python/PyRuntime.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Runtime/python/PyRuntime.py b/src/Runtime/python/PyRuntime.py
index 86e5960..c6af4e6 100644
--- a/src/Runtime/python/PyRuntime.py
+++ b/src/Runtime/python/PyRuntime.py
@@ -33,6 +33,8 @@ class OMExecutionSession(OMExecutionSession_):
         pyrun_shapes = []
         pyrun_strides = []
         for inp in inputs:
+            # Strides must describe the contiguous data passed along.
+            inp = np.asarray(inp, order="C")
             pyrun_inputs.append(inp.ravel())
             pyrun_shapes.append(np.array(inp.shape, dtype=np.int64))
             pyrun_strides.append(np.array(inp.strides, dtype=np.int64))
@@ -52,6 +54,8 @@ class OMExecutionSession(OMExecutionSession_):
         pyrun_shapes = []
         pyrun_strides = []
         for inp in inputs:
+            # Strides must describe the contiguous data passed along.
+            inp = np.asarray(inp, order="C")
             pyrun_inputs.append(inp.ravel())
             pyrun_shapes.append(np.array(inp.shape, dtype=np.int64))
             pyrun_strides.append(np.array(inp.strides, dtype=np.int64))
-- 
2.43.0


From d5fbf8e9e0a6723deaa4b858d84e0c1ba075e004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:05 +0000
Subject: [PATCH 52/90] fix: read true in permanent bool constants as 1, not -1

---
 src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.cpp b/src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.cpp
index ded0661..4e64800 100644
--- a/src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.cpp
@@ -22,6 +22,13 @@ using namespace mlir;
 
 namespace onnx_mlir {
 
+namespace {
+// The bool type i1 is signless but its wide type is unsigned.
+bool isWideSigned(IntegerType itype) {
+  return !itype.isUnsigned() && !itype.isInteger(1);
+}
+} // namespace
+
 WideNum getElementsSplatWideNum(ElementsAttr elms) {
   if (auto disposable = mlir::dyn_cast<DisposableElementsAttr>(elms))
     return disposable.getSplatValue<WideNum>();
@@ -29,7 +36,7 @@ WideNum getElementsSplatWideNum(ElementsAttr elms) {
   if (isa<FloatType>(elementType))
     return WideNum::fromAPFloat(elms.getSplatValue<APFloat>());
   if (auto itype = dyn_cast<IntegerType>(elementType))
-    return WideNum::fromAPInt(elms.getSplatValue<APInt>(), !itype.isUnsigned());
+    return WideNum::fromAPInt(elms.getSplatValue<APInt>(), isWideSigned(itype));
   llvm_unreachable("WideNum only supports integer and float types");
 }
 
@@ -44,7 +51,7 @@ void readDenseElementsWideNums(
     llvm::transform(elms.getValues<APFloat>(), dst.begin(),
         [](APFloat f) { return WideNum::fromAPFloat(f); });
   } else if (auto itype = dyn_cast<IntegerType>(elementType)) {
-    bool isSigned = !itype.isUnsigned();
+    bool isSigned = isWideSigned(itype);
     llvm::transform(elms.getValues<APInt>(), dst.begin(),
         [isSigned](APInt i) { return WideNum::fromAPInt(i, isSigned); });
   } else {
-- 
2.43.0


From 326bafb8d3eb5d1c967f428cdb890d7d22307e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:05 +0000
Subject: [PATCH 53/90] fix: convert the wide numbers when casting bool
 constants to signed integers

---
 src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
index ffbd8a2..91b7126 100644
--- a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
@@ -404,7 +404,10 @@ ElementsAttr ElementsAttrBuilder::castToIntElementType(
     //
     // TODO: Add configuration options to support other behaviors.
     //       See https://github.com/onnx/onnx-mlir/issues/2209
-    if (newElementType.isUnsigned() != oldElementType.isUnsignedInteger()) {
+    // Note that the wide type of bool is unsigned.
+    bool oldIsUnsigned =
+        oldElementType.isUnsignedInteger() || oldElementType.isInteger(1);
+    if (newElementType.isUnsigned() != oldIsUnsigned) {
       // DisposableElementsAttr requires transformation between integers with
       // different signs.
       // TODO: Consider relaxing the requirement and omit this transformation.
-- 
2.43.0


From 677d12bb28e9111036a55d275958841610a6713d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:16 +0000
Subject: [PATCH 54/90] fix: count non-zero elements of a scalar without
 dividing by its rank

---
 .../ONNX/ElementsAttr/ElementsAttrBuilder.cpp     | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
index 91b7126..79139ca 100644
--- a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
@@ -1095,25 +1095,28 @@ namespace {
 // TODO: If this is too slow then reimplement in the style of allEqual()
 //       with WideNum instead of APFloat/APInt.
 template <typename AP_TYPE>
-SmallVector<int64_t> nonZeroIndices(ElementsAttr elms) {
+SmallVector<int64_t> nonZeroIndices(ElementsAttr elms, int64_t &count) {
   SmallVector<int64_t> indices;
+  count = 0;
   auto values = elms.getValues<AP_TYPE>();
   for (const auto &idxpos :
       StridesRange<0>(elms.getShapedType().getShape(), {})) {
-    if (!values[idxpos.flattenedIndex].isZero())
+    if (!values[idxpos.flattenedIndex].isZero()) {
       indices.append(idxpos.index.begin(), idxpos.index.end());
+      ++count;
+    }
   }
   return indices;
 }
 } // namespace
 
 ElementsAttr ElementsAttrBuilder::nonZero(ElementsAttr elms) {
+  // A scalar's index is empty, so the indices don't tell the count.
+  int64_t count;
   SmallVector<int64_t> indices = isa<FloatType>(elms.getElementType())
-                                     ? nonZeroIndices<APFloat>(elms)
-                                     : nonZeroIndices<APInt>(elms);
+                                     ? nonZeroIndices<APFloat>(elms, count)
+                                     : nonZeroIndices<APInt>(elms, count);
   int64_t rank = elms.getShapedType().getRank();
-  assert(indices.size() % rank == 0);
-  int64_t count = indices.size() / rank;
   Type I64 = IntegerType::get(elms.getContext(), 64);
   // Return transposition from shape [count, rank] to [rank, count].
   auto nonZeroType = RankedTensorType::get({rank, count}, I64);
-- 
2.43.0


From b1c458c5bc5b39e295a09d8d5df0bd7e61d5c76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:10 +0000
Subject: [PATCH 55/90] fix: keep the input indices right when a graph is
 rewritten again

A graph that changes after it was rewritten for exporting, e.g. because a
parameter was updated in place, is rewritten once more. The indices of its inputs
were then computed among the inputs left by the first rewriting, but used with
those of the original graph, so the model was exported and run with the wrong
inputs.
---
 .../python/torch_onnxmlir/src/torch_onnxmlir/backend.py    | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/backend.py b/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/backend.py
index 53cbcd5..3ee3097 100644
--- a/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/backend.py
+++ b/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/backend.py
@@ -368,8 +368,11 @@ class TorchONNXMLIR:
                 self.gm.meta["om_same_hash_counter"] = same_hash_counter
 
         if need_rewrite:
-            # Rewrite the graph for exporting to onnx.
-            self.example_inputs_indices = self.rewrite_gm_for_export(*args)
+            # Rewrite the graph for exporting to onnx. If it had been rewritten
+            # before, then its unused inputs are already gone.
+            kept = self.gm.meta.get("om_example_inputs_indices", range(len(args)))
+            indices = self.rewrite_gm_for_export(*[args[i] for i in kept])
+            self.example_inputs_indices = [kept[i] for i in indices]
             self.cache_key = generate_hash_key(self.gm, args, kwargs["options"])
             self.gm.meta["om_hash"] = self.cache_key
             self.gm.meta["om_example_inputs_indices"] = self.example_inputs_indices
-- 
2.43.0


From 13a6c151d217759a4b3322d7dfcd9ca8c3a7ed30 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:57:45 +0000
Subject: [PATCH 56/90] fix: an MLIR input that cannot be loaded is an error
 code, not the end of the process

---
 src/Compiler/CompilerUtils.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/Compiler/CompilerUtils.cpp b/src/Compiler/CompilerUtils.cpp
index 5eb6e2b..ad757f6 100644
--- a/src/Compiler/CompilerUtils.cpp
+++ b/src/Compiler/CompilerUtils.cpp
@@ -160,7 +160,8 @@ namespace onnx_mlir {
 // =============================================================================
 // Methods for compiling and file processing.
 
-static void loadMLIR(std::string inputFilename, mlir::MLIRContext &context,
+// Returns 0 on success, error code on failure.
+static int loadMLIR(std::string inputFilename, mlir::MLIRContext &context,
     mlir::OwningOpRef<ModuleOp> &module) {
   // Handle '.mlir' input to the ONNX-MLIR frontend.
   // The mlir format indicates that one or more of the supported
@@ -169,7 +170,7 @@ static void loadMLIR(std::string inputFilename, mlir::MLIRContext &context,
   auto input = openInputFile(inputFilename, &errorMessage);
   if (!input) {
     llvm::errs() << errorMessage << "\n";
-    exit(1);
+    return InvalidInputFileAccess;
   }
 
   // Parse the input mlir.
@@ -179,7 +180,7 @@ static void loadMLIR(std::string inputFilename, mlir::MLIRContext &context,
   module = mlir::parseSourceFile<ModuleOp>(sourceMgr, &context);
   if (!module) {
     llvm::errs() << "Error can't load file " << inputFilename << "\n";
-    exit(1);
+    return InvalidInputFile;
   }
 
   // Set shape information if required.
@@ -209,6 +210,7 @@ static void loadMLIR(std::string inputFilename, mlir::MLIRContext &context,
         FunctionType::get(&context, newArgTypes, funcType.getResults());
     funcOp.setType(newType);
   }
+  return CompilerSuccess;
 }
 
 // Tailor LLVMIR to add features that cannot be done with MLIR LLVMIR.
@@ -726,7 +728,7 @@ int processInputFile(StringRef inputFilename, mlir::MLIRContext &context,
     return ImportFrontendModelFile(
         inputFilename, context, module, errorMessage, options);
   } else if (inputIsMLIR)
-    loadMLIR(inputFilename.str(), context, module);
+    return loadMLIR(inputFilename.str(), context, module);
   return CompilerSuccess;
 }
 
@@ -966,7 +968,7 @@ static int setupModule(mlir::OwningOpRef<ModuleOp> &module,
     if (rc != CompilerSuccess)
       return rc;
     module.release();
-    loadMLIR(mlirNameWithExt, context, module);
+    return loadMLIR(mlirNameWithExt, context, module);
   }
   return CompilerSuccess;
 }
-- 
2.43.0


From f5a19bd0cdc86621046dc66dd5cf957d3ed5383a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:57:45 +0000
Subject: [PATCH 57/90] fix: a temporary file that cannot be written fails the
 compilation with its error code

---
 src/Compiler/CompilerUtils.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/Compiler/CompilerUtils.cpp b/src/Compiler/CompilerUtils.cpp
index ad757f6..b09da17 100644
--- a/src/Compiler/CompilerUtils.cpp
+++ b/src/Compiler/CompilerUtils.cpp
@@ -323,6 +323,12 @@ static int genLLVMBitcode(const mlir::OwningOpRef<ModuleOp> &module,
     return InvalidTemporaryFileAccess;
   }
 
+  // When leaving early, an error on the unfinished file no longer matters.
+  auto abandonBitcodeStream = llvm::make_scope_exit([&moduleBitcodeStream]() {
+    moduleBitcodeStream.close();
+    moduleBitcodeStream.clear_error();
+  });
+
   // In the LLVM translation, we get some warnings, so disable in non-verbose
   // mode.
   if (diagnosticHandlerID && !VerboseOutput) {
@@ -354,12 +360,25 @@ static int genLLVMBitcode(const mlir::OwningOpRef<ModuleOp> &module,
       return InvalidTemporaryFileAccess;
     }
     llvmModule->print(moduleLLVMIRStream, nullptr);
-    moduleLLVMIRStream.flush();
+    moduleLLVMIRStream.close();
+    if (moduleLLVMIRStream.has_error()) {
+      llvm::errs() << llvmirNameWithExt << ": "
+                   << moduleLLVMIRStream.error().message() << "\n";
+      moduleLLVMIRStream.clear_error();
+      return InvalidTemporaryFileAccess;
+    }
   }
 
   // Write unoptimized bitcode to a file.
   llvm::WriteBitcodeToFile(*llvmModule, moduleBitcodeStream);
-  moduleBitcodeStream.flush();
+  abandonBitcodeStream.release();
+  moduleBitcodeStream.close();
+  if (moduleBitcodeStream.has_error()) {
+    llvm::errs() << unoptimizedBitcodeNameWithExt << ": "
+                 << moduleBitcodeStream.error().message() << "\n";
+    moduleBitcodeStream.clear_error();
+    return InvalidTemporaryFileAccess;
+  }
 
   // Use the LLVM's 'opt' command to optimize the bitcode.
   std::string optPath = getToolPath("opt");
-- 
2.43.0


From ead589e58b8291942269d9f1498d4dee1a349d32 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:57:45 +0000
Subject: [PATCH 58/90] fix: an output file that cannot be written is reported
 and not left half written

---
 src/Compiler/CompilerUtils.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/Compiler/CompilerUtils.cpp b/src/Compiler/CompilerUtils.cpp
index b09da17..2c01f67 100644
--- a/src/Compiler/CompilerUtils.cpp
+++ b/src/Compiler/CompilerUtils.cpp
@@ -786,6 +786,16 @@ int outputCode(mlir::OwningOpRef<ModuleOp> &module, std::string filenameWithExt,
     return InvalidOutputFileAccess;
   }
   outputModule(module, output->os(), largeElementLimit);
+  if (filenameWithExt == "-")
+    output->os().flush();
+  else
+    output->os().close();
+  if (output->os().has_error()) {
+    llvm::errs() << filenameWithExt << ": " << output->os().error().message()
+                 << "\n";
+    output->os().clear_error();
+    return InvalidOutputFileAccess;
+  }
   output->keep();
   return CompilerSuccess;
 }
-- 
2.43.0


From 43b6b6954b5630a8e0b6a239dc212323e4e72064 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:57:45 +0000
Subject: [PATCH 59/90] fix: intermediate files of a failed compilation step
 are removed

---
 src/Compiler/CompilerUtils.cpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/Compiler/CompilerUtils.cpp b/src/Compiler/CompilerUtils.cpp
index 2c01f67..e03de67 100644
--- a/src/Compiler/CompilerUtils.cpp
+++ b/src/Compiler/CompilerUtils.cpp
@@ -602,11 +602,12 @@ static int genJniJar(const mlir::OwningOpRef<ModuleOp> &module,
 static int compileModuleToObject(const mlir::OwningOpRef<ModuleOp> &module,
     std::string outputNameWithoutExt, std::string &objectNameWithExt) {
   std::string bitcodeNameWithExt = outputNameWithoutExt + ".bc";
+  // Also removes what a failing step left.
+  llvm::FileRemover bitcodeRemover(
+      bitcodeNameWithExt, !keepFiles(KeepFilesOfType::Bitcode));
   int rc = genLLVMBitcode(module, outputNameWithoutExt, bitcodeNameWithExt);
   if (rc != CompilerSuccess)
     return rc;
-  llvm::FileRemover bitcodeRemover(
-      bitcodeNameWithExt, !keepFiles(KeepFilesOfType::Bitcode));
   objectNameWithExt = getTargetFilename(outputNameWithoutExt, EmitObj);
   return genModelObject(bitcodeNameWithExt, objectNameWithExt);
 }
@@ -615,12 +616,12 @@ static int compileModuleToObject(const mlir::OwningOpRef<ModuleOp> &module,
 static int compileModuleToSharedLibrary(
     const mlir::OwningOpRef<ModuleOp> &module, std::string outputNameNoExt,
     std::string &libNameWithExt) {
-  std::string modelObjNameWithExt;
+  std::string modelObjNameWithExt = getTargetFilename(outputNameNoExt, EmitObj);
+  llvm::FileRemover modelObjRemover(
+      modelObjNameWithExt, !keepFiles(KeepFilesOfType::Object));
   int rc = compileModuleToObject(module, outputNameNoExt, modelObjNameWithExt);
   if (rc != CompilerSuccess)
     return rc;
-  llvm::FileRemover modelObjRemover(
-      modelObjNameWithExt, !keepFiles(KeepFilesOfType::Object));
   libNameWithExt = getTargetFilename(outputNameNoExt, EmitLib);
   return genSharedLib(libNameWithExt, {}, {modelObjNameWithExt},
       getCompilerConfig(CCM_SHARED_LIB_DEPS),
@@ -630,12 +631,12 @@ static int compileModuleToSharedLibrary(
 // Return 0 on success, error code on failure
 static int compileModuleToJniJar(
     const mlir::OwningOpRef<ModuleOp> &module, std::string outputNameNoExt) {
-  std::string modelObjNameWithExt;
+  std::string modelObjNameWithExt = getTargetFilename(outputNameNoExt, EmitObj);
+  llvm::FileRemover modelObjRemover(
+      modelObjNameWithExt, !keepFiles(KeepFilesOfType::Object));
   int rc = compileModuleToObject(module, outputNameNoExt, modelObjNameWithExt);
   if (rc != CompilerSuccess)
     return rc;
-  llvm::FileRemover modelObjRemover(
-      modelObjNameWithExt, !keepFiles(KeepFilesOfType::Object));
 
   StringRef outputDir = llvm::sys::path::parent_path(outputNameNoExt);
   if (outputDir.empty())
@@ -647,11 +648,11 @@ static int compileModuleToJniJar(
   llvm::sys::path::append(jniObjDir, "jnidummy.c.o");
   std::string jniObjPath = llvm::StringRef(jniObjDir).str();
 
+  llvm::FileRemover jniObjRemover(
+      jniObjPath, !keepFiles(KeepFilesOfType::Object));
   rc = genJniObject(module, jniSharedLibPath, jniObjPath);
   if (rc != CompilerSuccess)
     return rc;
-  llvm::FileRemover jniObjRemover(
-      jniObjPath, !keepFiles(KeepFilesOfType::Object));
 
   llvm::SmallString<8> jniLibDir(outputDir);
   llvm::sys::path::append(jniLibDir, "libmodel");
@@ -665,13 +666,13 @@ static int compileModuleToJniJar(
   { "-z", "noexecstack" }
 #endif
   std::string modelSharedLibPath = getTargetFilename(jniLibBase, EmitLib);
+  llvm::FileRemover modelSharedLibRemover(
+      modelSharedLibPath, !keepFiles(KeepFilesOfType::Object));
   rc = genSharedLib(modelSharedLibPath, NOEXECSTACK,
       {modelObjNameWithExt, jniObjPath}, getCompilerConfig(CCM_SHARED_LIB_DEPS),
       getCompilerConfig(CCM_SHARED_LIB_PATH_DEPS));
   if (rc != CompilerSuccess)
     return rc;
-  llvm::FileRemover modelSharedLibRemover(
-      modelSharedLibPath, !keepFiles(KeepFilesOfType::Object));
 
   std::string modelJniJarPath = getTargetFilename(outputNameNoExt, EmitJNI);
   return genJniJar(module, modelSharedLibPath, modelJniJarPath);
-- 
2.43.0


From 369bc6a74dc2dcead21924bcc277be4d73c838eb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:57:45 +0000
Subject: [PATCH 60/90] fix: a Java runtime that cannot be copied fails the JNI
 compilation

---
 src/Compiler/CompilerUtils.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Compiler/CompilerUtils.cpp b/src/Compiler/CompilerUtils.cpp
index e03de67..a6bb754 100644
--- a/src/Compiler/CompilerUtils.cpp
+++ b/src/Compiler/CompilerUtils.cpp
@@ -572,7 +572,11 @@ static int genJniJar(const mlir::OwningOpRef<ModuleOp> &module,
   std::string javaRuntimeJarPath = llvm::StringRef(libraryPath).str();
 
   // Copy javaruntime.jar to model jar.
-  llvm::sys::fs::copy_file(javaRuntimeJarPath, modelJniJarPath);
+  if (std::error_code ec =
+          llvm::sys::fs::copy_file(javaRuntimeJarPath, modelJniJarPath)) {
+    llvm::errs() << javaRuntimeJarPath << ": " << ec.message() << "\n";
+    return CompilerFailureInGenJni;
+  }
   if (VerboseOutput)
     llvm::outs() << "cp " << javaRuntimeJarPath << " " << modelJniJarPath
                  << "\n";
-- 
2.43.0


From 6dfae38e83413c92c5d9488d339f8df0e8daf16e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:58:17 +0000
Subject: [PATCH 61/90] fix: the tag derived for one model is not kept for the
 next

---
 src/Compiler/CompilerUtils.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Compiler/CompilerUtils.cpp b/src/Compiler/CompilerUtils.cpp
index a6bb754..6ca7638 100644
--- a/src/Compiler/CompilerUtils.cpp
+++ b/src/Compiler/CompilerUtils.cpp
@@ -30,6 +30,7 @@
 #include "mlir/Target/LLVMIR/Dialect/Builtin/BuiltinToLLVMIRTranslation.h"
 #include "mlir/Target/LLVMIR/Dialect/LLVMIR/LLVMToLLVMIRTranslation.h"
 #include "mlir/Target/LLVMIR/Export.h"
+#include "llvm/ADT/ScopeExit.h"
 #include "llvm/Bitcode/BitcodeWriter.h"
 #include "llvm/IR/Constants.h"
 #include "llvm/IR/GlobalValue.h"
@@ -1037,6 +1038,10 @@ int compileModule(mlir::OwningOpRef<ModuleOp> &module,
   showCompilePhase(msg);
   auto compileModuleTiming = rootTimingScope.nest("[onnx-mlir] " + msg);
 
+  // A tag derived from the name of this output is not for the next model.
+  auto restoreModelTag = llvm::make_scope_exit(
+      [requestedModelTag = modelTag]() { modelTag = requestedModelTag; });
+
   int rc = setupModule(module, context, outputNameNoExt);
   if (rc != CompilerSuccess)
     return rc;
-- 
2.43.0


From 4f14167de685d00ff816742631448ff54a95caf0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:58:17 +0000
Subject: [PATCH 62/90] fix: a configuration path that cannot be examined does
 not abort the compiler

---
 src/Compiler/CompilerOptions.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Compiler/CompilerOptions.cpp b/src/Compiler/CompilerOptions.cpp
index 7a8d315..1ff61f7 100644
--- a/src/Compiler/CompilerOptions.cpp
+++ b/src/Compiler/CompilerOptions.cpp
@@ -1657,7 +1657,8 @@ bool loadCompileOptionsFromConfig(
       inputPath.parent_path() / "omconfig.json";
   std::string configPath =
       configFileVar.empty() ? defaultConfigPath.string() : configFileVar;
-  if (!std::filesystem::exists(configPath)) {
+  std::error_code ec; // Also set when the path cannot be examined.
+  if (!std::filesystem::exists(configPath, ec)) {
     if (verbose && !configFileVar.empty()) {
       // Only warn if user explicitly specified a config file.
       llvm::errs() << "Warning: Config file not found: " << configPath << "\n";
-- 
2.43.0


From 5413426148625e5805e23772127639fe3b9d340e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 03:03:00 +0000
Subject: [PATCH 63/90] fix: a working directory that cannot be determined or
 restored is an error of the command

---
 src/Compiler/Command.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/Compiler/Command.cpp b/src/Compiler/Command.cpp
index a99fcd7..1b8fb51 100644
--- a/src/Compiler/Command.cpp
+++ b/src/Compiler/Command.cpp
@@ -123,14 +123,19 @@ void Command::redirectExecStreams(const std::string &stdFilename) {
 // Execute command - Platform-specific implementations.
 int Command::exec(const std::string &wdir) {
   // Get current working directory.
-  fs::path curWdir = fs::current_path();
+  fs::path curWdir;
   // Determine new working directory based on wdir.
   fs::path newWdir;
   bool requestedNewDir = !wdir.empty();
-  if (requestedNewDir)
-    newWdir = getAbsolutePathUsingCurrentDir(wdir);
-  else
-    newWdir = curWdir;
+  try {
+    curWdir = fs::current_path();
+    if (requestedNewDir)
+      newWdir = getAbsolutePathUsingCurrentDir(wdir);
+    else
+      newWdir = curWdir;
+  } catch (const fs::filesystem_error &e) {
+    throw CommandException("Failed to determine the current directory");
+  }
   const std::string newWdirName = newWdir.string();
 
 #ifndef _WIN32
@@ -225,8 +230,9 @@ int Command::exec(const std::string &wdir) {
   // Fork and execute.
   pid_t pid = fork();
   if (pid == -1) {
+    std::error_code ec; // What is reported is the failed fork.
     if (requestedNewDir)
-      fs::current_path(curWdir);
+      fs::current_path(curWdir, ec);
     throw CommandException("Fork failed");
   }
 
-- 
2.43.0


From 2086e93045a191b2291e029a457303ffb32b7895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:48 +0000
Subject: [PATCH 64/90] fix: an unknown target is an error code, not a crash

---
 src/Compiler/CompilerUtils.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/Compiler/CompilerUtils.cpp b/src/Compiler/CompilerUtils.cpp
index 6ca7638..eedcd6e 100644
--- a/src/Compiler/CompilerUtils.cpp
+++ b/src/Compiler/CompilerUtils.cpp
@@ -924,17 +924,20 @@ static const llvm::Target *getLLVMTarget(
 
 /// Return the module data layout string. The data layout string is determined
 /// by creating a target machine using the target triple and target cpu.
+/// Empty when the target is not known.
 static std::string getDataLayout(const Location &loc) {
-  const llvm::Target &LLVMTarget = *getLLVMTarget(mtriple, loc);
+  const llvm::Target *LLVMTarget = getLLVMTarget(mtriple, loc);
+  if (!LLVMTarget)
+    return "";
   llvm::TargetOptions ops;
   std::string mcpuForLLVMToolchain = getTargetCPUOption(
       /*forLLVM*/ true, /*cpu only*/ true);
   auto targetMachine = std::unique_ptr<llvm::TargetMachine>{
-      LLVMTarget.createTargetMachine(llvm::Triple(mtriple),
+      LLVMTarget->createTargetMachine(llvm::Triple(mtriple),
           mcpuForLLVMToolchain, "" /*features*/, ops, std::nullopt)};
   if (!targetMachine) {
     emitError(loc, "failed to create target machine");
-    return nullptr;
+    return "";
   }
 
   const llvm::DataLayout &dl = targetMachine->createDataLayout();
@@ -956,10 +959,13 @@ static int setupModule(mlir::OwningOpRef<ModuleOp> &module,
   // Set the module target triple and datalayout.
   Operation &moduleOp = *(module->getOperation());
   Location loc = moduleOp.getLoc();
+  std::string dataLayout = getDataLayout(loc);
+  if (dataLayout.empty())
+    return InvalidCompilerOption;
   moduleOp.setAttr(LLVM::LLVMDialect::getTargetTripleAttrName(),
       StringAttr::get(&context, mtriple));
   moduleOp.setAttr(LLVM::LLVMDialect::getDataLayoutAttrName(),
-      StringAttr::get(&context, getDataLayout(loc)));
+      StringAttr::get(&context, dataLayout));
 
   // Set a tag that will be used to postfix symbols in the generated
   // LLVMIR. By default, use the filename (without extension) of the input onnx
-- 
2.43.0


From 4f2cb56a5925f111e956b7035ab892be31676a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:14 +0000
Subject: [PATCH 65/90] fix: an invalid offset or length of external data is an
 error

---
 src/Builder/FrontendDialectHelper.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/Builder/FrontendDialectHelper.cpp b/src/Builder/FrontendDialectHelper.cpp
index f7b3d00..c8f7982 100644
--- a/src/Builder/FrontendDialectHelper.cpp
+++ b/src/Builder/FrontendDialectHelper.cpp
@@ -17,6 +17,7 @@
 #include "mlir/IR/BuiltinAttributeInterfaces.h"
 #include "llvm/ADT/SmallVector.h"
 #include "llvm/Support/Endian.h"
+#include "llvm/Support/ErrorHandling.h"
 #include "llvm/Support/FileSystem.h"
 #include "llvm/Support/MemoryBuffer.h"
 #include "llvm/Support/Path.h"
@@ -34,11 +35,17 @@ namespace onnx_mlir {
 
 namespace {
 
-// Parses unsigned number.
-size_t parseOffsetOrLength(const std::string &value) {
-  char *end = nullptr;
-  size_t offsetOrLength = strtoull(value.c_str(), &end, 0);
-  assert(end != value.c_str() && "failed to parse offset or length");
+// Reports that the model cannot be imported, and stops.
+[[noreturn]] void importError(const llvm::Twine &message) {
+  llvm::report_fatal_error(message, /*gen_crash_diag=*/false);
+}
+
+// Parses unsigned decimal number.
+uint64_t parseOffsetOrLength(const std::string &value) {
+  uint64_t offsetOrLength;
+  if (StringRef(value).getAsInteger(10, offsetOrLength))
+    importError("external data offset or length \"" + value +
+                "\" is not a valid number.");
   return offsetOrLength;
 }
 
-- 
2.43.0


From b5739666c3343f7852a7b4ec1e7108ddc3dc39ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:02 +0000
Subject: [PATCH 66/90] fix: external data that cannot be checked for links is
 an error

---
 src/Builder/FrontendDialectHelper.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/Builder/FrontendDialectHelper.cpp b/src/Builder/FrontendDialectHelper.cpp
index c8f7982..ba01c50 100644
--- a/src/Builder/FrontendDialectHelper.cpp
+++ b/src/Builder/FrontendDialectHelper.cpp
@@ -101,7 +101,11 @@ std::unique_ptr<llvm::MemoryBuffer> readExternalData_LE(
   // https://github.com/onnx/onnx-mlir/issues/3455).
   // Reject symlinks in external data files to prevent path traversal attacks
   // (CVE-2026-27489).
-  if (llvm::sys::fs::is_symlink_file(pathStr)) {
+  llvm::sys::fs::file_status linkStat;
+  if (std::error_code ec =
+          llvm::sys::fs::status(pathStr, linkStat, /*follow=*/false))
+    importError("external data file " + pathStr + ": " + ec.message());
+  if (llvm::sys::fs::is_symlink_file(linkStat)) {
     llvm::errs() << "Error: external data file " << pathStr
                  << " is a symlink, which is not allowed for security "
                     "reasons.\n";
@@ -113,8 +117,11 @@ std::unique_ptr<llvm::MemoryBuffer> readExternalData_LE(
   // Reject hardlinks in external data files to prevent path traversal attacks
   // (CVE-2026-34446).
   llvm::sys::fs::file_status fileStat;
-  if (!llvm::sys::fs::status(pathStr, fileStat) &&
-      fileStat.getLinkCount() > 1) {
+  if (std::error_code ec = llvm::sys::fs::status(pathStr, fileStat))
+    importError("external data file " + pathStr + ": " + ec.message());
+  if (!llvm::sys::fs::is_regular_file(fileStat))
+    importError("external data file " + pathStr + " is not a regular file.");
+  if (fileStat.getLinkCount() > 1) {
     llvm::errs() << "Error: external data file " << pathStr
                  << " is a hardlink (link count: " << fileStat.getLinkCount()
                  << "), which is not allowed for security reasons.\n";
-- 
2.43.0


From c1ddecaa629f8fe4c4c0cace654754c00576746f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:02 +0000
Subject: [PATCH 67/90] fix: external data reached through a link out of the
 model's directory is an error

---
 src/Builder/FrontendDialectHelper.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/Builder/FrontendDialectHelper.cpp b/src/Builder/FrontendDialectHelper.cpp
index ba01c50..dbe3796 100644
--- a/src/Builder/FrontendDialectHelper.cpp
+++ b/src/Builder/FrontendDialectHelper.cpp
@@ -112,6 +112,23 @@ std::unique_ptr<llvm::MemoryBuffer> readExternalData_LE(
     llvm_unreachable("external data file is a symlink");
   }
 
+  // Reject files reached through a symlinked directory that leads out of the
+  // model's directory.
+  StringRef dir = externalDataDir.empty() ? "." : StringRef(externalDataDir);
+  SmallVector<char> realDir, realPath;
+  std::error_code ec = llvm::sys::fs::real_path(dir, realDir);
+  if (!ec)
+    ec = llvm::sys::fs::real_path(pathStr, realPath);
+  if (ec)
+    importError("external data file " + pathStr + ": " + ec.message());
+  StringRef base(realDir.data(), realDir.size());
+  StringRef file(realPath.data(), realPath.size());
+  if (std::mismatch(llvm::sys::path::begin(base), llvm::sys::path::end(base),
+          llvm::sys::path::begin(file), llvm::sys::path::end(file))
+          .first != llvm::sys::path::end(base))
+    importError("external data file " + pathStr +
+                " is outside the directory of the model.");
+
   // TODO: Remove after onnx 1.21.0 update (see
   // https://github.com/onnx/onnx-mlir/issues/3455).
   // Reject hardlinks in external data files to prevent path traversal attacks
-- 
2.43.0


From 100cfaf674b49e3045e186c256d01833d08d8ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:02 +0000
Subject: [PATCH 68/90] fix: external data that is shorter than the tensor is
 an error

---
 src/Builder/FrontendDialectHelper.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/Builder/FrontendDialectHelper.cpp b/src/Builder/FrontendDialectHelper.cpp
index dbe3796..d254cf5 100644
--- a/src/Builder/FrontendDialectHelper.cpp
+++ b/src/Builder/FrontendDialectHelper.cpp
@@ -49,17 +49,19 @@ uint64_t parseOffsetOrLength(const std::string &value) {
   return offsetOrLength;
 }
 
-// Reads external data from file location specified in tensor proto.
+// Reads external data from file location specified in tensor proto,
+// size is the number of bytes that the tensor consists of.
 // The data is little endian encoded.
 // See https://github.com/onnx/onnx/blob/main/docs/ExternalData.md
 //
 // TODO: having a more friendly error reporting method than an assert or
 // unreachable would be a plus.
 std::unique_ptr<llvm::MemoryBuffer> readExternalData_LE(
-    const std::string &externalDataDir, const onnx::TensorProto &tp) {
+    const std::string &externalDataDir, const onnx::TensorProto &tp,
+    uint64_t size) {
   std::string location;
   uint64_t offset = 0;
-  uint64_t length = -1; // MemoryBuffer uses -1 to mean infinity
+  std::optional<uint64_t> length; // without a length, up to the end of the file
   for (const onnx::StringStringEntryProto &entry : tp.external_data()) {
     assert(entry.has_key() && "external_data entry must have key");
     assert(entry.has_value() && "external_data entry must have value");
@@ -145,11 +147,22 @@ std::unique_ptr<llvm::MemoryBuffer> readExternalData_LE(
     llvm_unreachable("external data file is a hardlink");
   }
 
+  // getFileSlice doesn't fail when it is asked for more than the file has.
+  uint64_t fileSize = fileStat.getSize();
+  if (offset > fileSize || (length && *length > fileSize - offset))
+    importError("external data file " + pathStr + " of " +
+                llvm::Twine(fileSize) + " bytes does not have the data.");
+  uint64_t available = length.value_or(fileSize - offset);
+  if (available < size)
+    importError("external data file " + pathStr + " has " +
+                llvm::Twine(available) + " bytes for a tensor of " +
+                llvm::Twine(size) + " bytes.");
+
   auto bufferOrError = llvm::MemoryBuffer::getFileSlice(
-      path, length, offset, /*IsVolatile=*/false);
+      path, size, offset, /*IsVolatile=*/false);
   if (std::error_code ec = bufferOrError.getError()) {
     llvm::errs() << "Error " << ec.message() << " reading from file " << pathStr
-                 << ", offset=" << offset << ", length=" << length << "\n";
+                 << ", offset=" << offset << ", length=" << size << "\n";
     llvm_unreachable("llvm::MemoryBuffer::getFileSlice failed");
   }
   return std::move(bufferOrError.get());
@@ -287,7 +300,8 @@ ElementsAttr createElmAttr(RankedTensorType tensorType,
   if (tp.has_data_location() &&
       tp.data_location() == onnx::TensorProto::EXTERNAL) {
     return createElementsAttrFromMemoryBuffer_LE<T>(
-        tensorType, readExternalData_LE(externalDataDir, tp));
+        tensorType, readExternalData_LE(externalDataDir, tp,
+                        tensorType.getNumElements() * sizeof(T)));
   }
   if (tp.has_raw_data()) {
     return createElmAttrFromRawBytes_LE<T>(
-- 
2.43.0


From 2db6d6667359d9e46f49c48c1663eb239b990892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:02 +0000
Subject: [PATCH 69/90] fix: raw data that does not match the tensor's shape is
 an error

---
 src/Builder/FrontendDialectHelper.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Builder/FrontendDialectHelper.cpp b/src/Builder/FrontendDialectHelper.cpp
index d254cf5..6b36f6f 100644
--- a/src/Builder/FrontendDialectHelper.cpp
+++ b/src/Builder/FrontendDialectHelper.cpp
@@ -293,6 +293,13 @@ ElementsAttr createElmAttrFromProtoData(RankedTensorType tensorType,
   return createElmAttrFromArray<T>(tensorType, data, deserializeDatum<T, U>);
 }
 
+// Checks that the data in the model matches the shape of the tensor.
+void checkDataSize(uint64_t expected, uint64_t actual, StringRef unit) {
+  if (actual != expected)
+    importError("tensor data has " + llvm::Twine(actual) + " " + unit +
+                " instead of " + llvm::Twine(expected) + ".");
+}
+
 // Returns ElementsAttr with tp's data.
 template <typename T>
 ElementsAttr createElmAttr(RankedTensorType tensorType,
@@ -304,6 +311,8 @@ ElementsAttr createElmAttr(RankedTensorType tensorType,
                         tensorType.getNumElements() * sizeof(T)));
   }
   if (tp.has_raw_data()) {
+    checkDataSize(
+        tensorType.getNumElements() * sizeof(T), tp.raw_data().size(), "bytes");
     return createElmAttrFromRawBytes_LE<T>(
         tensorType, asArrayRef(tp.raw_data()));
   }
-- 
2.43.0


From 1a4df3989dd9099832aa4f311568744b1b2b3c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:02 +0000
Subject: [PATCH 70/90] fix: tensor data that does not match the tensor's shape
 is an error

---
 src/Builder/FrontendDialectHelper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Builder/FrontendDialectHelper.cpp b/src/Builder/FrontendDialectHelper.cpp
index 6b36f6f..3e066b2 100644
--- a/src/Builder/FrontendDialectHelper.cpp
+++ b/src/Builder/FrontendDialectHelper.cpp
@@ -318,6 +318,7 @@ ElementsAttr createElmAttr(RankedTensorType tensorType,
   }
   // Not raw, no need to take care of endianness.
   const auto &data = TransformValueToONNXData<T>::data(tp);
+  checkDataSize(tensorType.getNumElements(), data.size(), "elements");
   return createElmAttrFromProtoData<T>(tensorType, data);
 }
 
-- 
2.43.0


From e94f84e4fb11223bd52568ab6fb133e575410aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:02 +0000
Subject: [PATCH 71/90] fix: strings that do not match the tensor's shape are
 an error

---
 src/Builder/FrontendDialectHelper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Builder/FrontendDialectHelper.cpp b/src/Builder/FrontendDialectHelper.cpp
index 3e066b2..9eaba88 100644
--- a/src/Builder/FrontendDialectHelper.cpp
+++ b/src/Builder/FrontendDialectHelper.cpp
@@ -333,6 +333,7 @@ ElementsAttr createStringElmAttr(
          "string TensorProto cannot be external data");
   assert(!tp.has_raw_data() && "string TensorProto cannot be raw data");
   auto data = tp.string_data();
+  checkDataSize(tensorType.getNumElements(), data.size(), "strings");
   SmallVector<StringRef> copy(data.begin(), data.end());
   return DenseElementsAttr::get(tensorType, ArrayRef(copy));
 }
-- 
2.43.0


From 00ea44b5cd8c9d284a438861ed17b8a84650145e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:57 +0000
Subject: [PATCH 72/90] fix: a tensor with more elements than can be counted is
 an error

---
 src/Builder/FrontendDialectHelper.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Builder/FrontendDialectHelper.cpp b/src/Builder/FrontendDialectHelper.cpp
index 9eaba88..dd847d4 100644
--- a/src/Builder/FrontendDialectHelper.cpp
+++ b/src/Builder/FrontendDialectHelper.cpp
@@ -19,6 +19,7 @@
 #include "llvm/Support/Endian.h"
 #include "llvm/Support/ErrorHandling.h"
 #include "llvm/Support/FileSystem.h"
+#include "llvm/Support/MathExtras.h"
 #include "llvm/Support/MemoryBuffer.h"
 #include "llvm/Support/Path.h"
 #include "llvm/Support/SwapByteOrder.h"
@@ -344,6 +345,10 @@ ElementsAttr onnxTensorProtoToElmAttr(MLIRContext *ctx,
     const std::string &externalDataDir, const onnx::TensorProto &tp) {
   // Tensor dimensions.
   ArrayRef<int64_t> tensorDims(tp.dims().data(), tp.dims().size());
+  int64_t maxBytes = sizeof(int64_t); // of a tensor with the widest elements
+  for (int64_t dim : tensorDims)
+    if (dim < 0 || llvm::MulOverflow(maxBytes, dim, maxBytes))
+      importError("tensor dimension " + llvm::Twine(dim) + " is not valid.");
   if (tp.data_type() == onnx::TensorProto::STRING) {
     Type elmType = ONNXStringType::get(ctx);
     auto tensorType = RankedTensorType::get(tensorDims, elmType);
-- 
2.43.0


From 64b8ebfa75a9a9919203b8468faf4b28ef26781b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:04 +0000
Subject: [PATCH 73/90] fix: a configuration file that cannot be written is an
 error

---
 src/Compiler/JsonConfigObject.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Compiler/JsonConfigObject.cpp b/src/Compiler/JsonConfigObject.cpp
index 3700a79..c4a3ef7 100644
--- a/src/Compiler/JsonConfigObject.cpp
+++ b/src/Compiler/JsonConfigObject.cpp
@@ -100,6 +100,13 @@ bool JsonConfigObject::storeToFile(
   llvm::json::OStream jsonOS(outFile, indent);
   jsonOS.value(llvm::json::Value(llvm::json::Object(*jsonObject)));
   outFile << "\n";
+  outFile.close();
+  if (outFile.has_error()) {
+    llvm::errs() << "Error: Could not write file: " << filePath << " ("
+                 << outFile.error().message() << ")\n";
+    outFile.clear_error();
+    return false;
+  }
 
   return true;
 }
-- 
2.43.0


From 29fe80e3cdb1a3207ae537f83bb00a707a057acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:04 +0000
Subject: [PATCH 74/90] fix: a pass that cannot save its configuration fails

---
 .../NNPA/Conversion/ONNXToZHigh/DevicePlacement.cpp            | 3 ++-
 .../NNPA/Conversion/ONNXToZHigh/GenerateConfigFile.cpp         | 3 ++-
 .../NNPA/Conversion/ONNXToZHigh/QuantOpSelection.cpp           | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Accelerators/NNPA/Conversion/ONNXToZHigh/DevicePlacement.cpp b/src/Accelerators/NNPA/Conversion/ONNXToZHigh/DevicePlacement.cpp
index c3a477a..93eb763 100644
--- a/src/Accelerators/NNPA/Conversion/ONNXToZHigh/DevicePlacement.cpp
+++ b/src/Accelerators/NNPA/Conversion/ONNXToZHigh/DevicePlacement.cpp
@@ -251,7 +251,8 @@ void DevicePlacementPass::runOnOperation() {
         });
 
     // Store the configuration to file.
-    configObject->storeToFile(saveConfigFile);
+    if (!configObject->storeToFile(saveConfigFile))
+      signalPassFailure();
   }
 }
 
diff --git a/src/Accelerators/NNPA/Conversion/ONNXToZHigh/GenerateConfigFile.cpp b/src/Accelerators/NNPA/Conversion/ONNXToZHigh/GenerateConfigFile.cpp
index ec11243..89256e2 100644
--- a/src/Accelerators/NNPA/Conversion/ONNXToZHigh/GenerateConfigFile.cpp
+++ b/src/Accelerators/NNPA/Conversion/ONNXToZHigh/GenerateConfigFile.cpp
@@ -114,7 +114,8 @@ void GenerateConfigFilePass::runOnOperation() {
         });
 
     // Store the configuration to file.
-    configObj.storeToFile(outputConfigFile);
+    if (!configObj.storeToFile(outputConfigFile))
+      signalPassFailure();
   }
 }
 
diff --git a/src/Accelerators/NNPA/Conversion/ONNXToZHigh/QuantOpSelection.cpp b/src/Accelerators/NNPA/Conversion/ONNXToZHigh/QuantOpSelection.cpp
index 3ebbd8a..567dc70 100644
--- a/src/Accelerators/NNPA/Conversion/ONNXToZHigh/QuantOpSelection.cpp
+++ b/src/Accelerators/NNPA/Conversion/ONNXToZHigh/QuantOpSelection.cpp
@@ -150,7 +150,8 @@ void QuantOpSelectionPass::runOnOperation() {
         });
 
     // Store the configuration to file.
-    configObject->storeToFile(saveConfigFile);
+    if (!configObject->storeToFile(saveConfigFile))
+      signalPassFailure();
   }
 }
 
-- 
2.43.0


From bf51a5dbad7c71521c2a054deb318ba7f23599bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:04 +0000
Subject: [PATCH 75/90] fix: the configuration file to save is not emptied
 before it is read

---
 src/Accelerators/NNPA/Compiler/NNPACompilerUtils.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/Accelerators/NNPA/Compiler/NNPACompilerUtils.cpp b/src/Accelerators/NNPA/Compiler/NNPACompilerUtils.cpp
index 78c3943..b9f87cd 100644
--- a/src/Accelerators/NNPA/Compiler/NNPACompilerUtils.cpp
+++ b/src/Accelerators/NNPA/Compiler/NNPACompilerUtils.cpp
@@ -270,13 +270,8 @@ void addPassesNNPA(mlir::OwningOpRef<mlir::ModuleOp> &module,
     pm.addPass(onnx_mlir::createDevicePlacementPass(nnpaPlacementHeuristic));
     pm.addPass(onnx_mlir::createQuantOpSelectionPass());
     // Save the current config to a file if required.
-    if (!saveConfigFile.empty()) {
-      // Empty the save json config file if it exists.
-      std::error_code EC;
-      llvm::raw_fd_ostream OS(saveConfigFile, EC, llvm::sys::fs::OF_None);
-      OS.close();
+    if (!saveConfigFile.empty())
       pm.addPass(onnx_mlir::createGenerateConfigFilePass(saveConfigFile));
-    }
   }
 
   if (emissionTarget >= EmitMLIR) {
-- 
2.43.0


From 8a41ec97565c3000b4d4f02af3218ff9d727cc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:04 +0000
Subject: [PATCH 76/90] fix: a configuration is read once

---
 src/Accelerators/NNPA/Compiler/NNPAJsonConfigObject.cpp | 8 +++++---
 src/Compiler/JsonConfigObject.cpp                       | 6 ++++++
 src/Compiler/JsonConfigObject.hpp                       | 4 ++++
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/Accelerators/NNPA/Compiler/NNPAJsonConfigObject.cpp b/src/Accelerators/NNPA/Compiler/NNPAJsonConfigObject.cpp
index 692cbf5..1ab3786 100644
--- a/src/Accelerators/NNPA/Compiler/NNPAJsonConfigObject.cpp
+++ b/src/Accelerators/NNPA/Compiler/NNPAJsonConfigObject.cpp
@@ -36,9 +36,11 @@ NNPAJsonConfigObject &getGlobalNNPAConfig() {
 
   std::call_once(initFlag, []() {
     if (!globalNNPAConfig.isLoaded()) {
-      JsonConfigObject *globalConfig = &getGlobalOMConfig();
-      if (globalConfig->isLoaded())
-        globalNNPAConfig.loadFromFile(getGlobalOMConfig().getFilePath());
+      // Use what was loaded instead of reading the file again, which may have
+      // changed or become unreadable since.
+      const JsonConfigObject &globalConfig = getGlobalOMConfig();
+      if (globalConfig.isLoaded())
+        globalNNPAConfig.copyFrom(globalConfig);
     }
   });
 
diff --git a/src/Compiler/JsonConfigObject.cpp b/src/Compiler/JsonConfigObject.cpp
index c4a3ef7..29028ed 100644
--- a/src/Compiler/JsonConfigObject.cpp
+++ b/src/Compiler/JsonConfigObject.cpp
@@ -79,6 +79,12 @@ bool JsonConfigObject::loadFromFile(const std::string &filePath) {
   return true;
 }
 
+void JsonConfigObject::copyFrom(const JsonConfigObject &other) {
+  jsonObject = std::make_unique<llvm::json::Object>(*other.jsonObject);
+  filePath = other.filePath;
+  fileIsLoaded = other.fileIsLoaded;
+}
+
 bool JsonConfigObject::storeToFile(
     const std::string &filePath, unsigned indent) const {
   if (!jsonObject || jsonObject->empty()) {
diff --git a/src/Compiler/JsonConfigObject.hpp b/src/Compiler/JsonConfigObject.hpp
index a7e7fd4..edf5562 100644
--- a/src/Compiler/JsonConfigObject.hpp
+++ b/src/Compiler/JsonConfigObject.hpp
@@ -50,6 +50,10 @@ public:
   /// @return true if successful, false otherwise.
   bool loadFromFile(const std::string &filePath);
 
+  /// Take over the content and the state of another config object.
+  /// @param other The config object to copy.
+  void copyFrom(const JsonConfigObject &other);
+
   /// Store JSON content to a file.
   /// @param filePath Path to the JSON file to write.
   /// @param indent Indentation size for pretty printing (default: 2).
-- 
2.43.0


From d76407333913ec6c7381f468032c4ed2515b3a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:04 +0000
Subject: [PATCH 77/90] fix: a saved node name matches that name

---
 .../NNPA/Compiler/NNPAJsonConfigObject.cpp         | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/Accelerators/NNPA/Compiler/NNPAJsonConfigObject.cpp b/src/Accelerators/NNPA/Compiler/NNPAJsonConfigObject.cpp
index 1ab3786..123f28f 100644
--- a/src/Accelerators/NNPA/Compiler/NNPAJsonConfigObject.cpp
+++ b/src/Accelerators/NNPA/Compiler/NNPAJsonConfigObject.cpp
@@ -402,6 +402,18 @@ void NNPAJsonConfigObject::applyConfigToOps(
   }
 }
 
+// Node names are matched as regular expressions: escape the characters that
+// have a special meaning so that a saved name matches itself only.
+static std::string escapeRegex(llvm::StringRef name) {
+  std::string escaped;
+  for (char c : name) {
+    if (llvm::StringRef("^$\\.*+?()[]{}|").contains(c))
+      escaped += '\\';
+    escaped += c;
+  }
+  return escaped;
+}
+
 void NNPAJsonConfigObject::writeOpsConfig(llvm::ArrayRef<mlir::Operation *> ops,
     mlir::function_ref<bool(mlir::Operation *, json::Object &rewrite)>
         buildConfigFn) {
@@ -418,7 +430,7 @@ void NNPAJsonConfigObject::writeOpsConfig(llvm::ArrayRef<mlir::Operation *> ops,
     // Get the onnx_node_name if present.
     if (auto nameAttr =
             op->getAttrOfType<mlir::StringAttr>(ONNX_NODE_NAME_ATTR)) {
-      match[ONNX_NODE_NAME_KEY] = nameAttr.getValue().str();
+      match[ONNX_NODE_NAME_KEY] = escapeRegex(nameAttr.getValue());
     }
 
     // Get the tensor info from inputs and outputs.
-- 
2.43.0


From 0e331a98d32b3487f05e8bb08320aeacdf364dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:04 +0000
Subject: [PATCH 78/90] fix: a malformed or inapplicable tensor pattern does
 not match instead of crashing

---
 .../NNPA/Compiler/NNPAJsonConfigObject.cpp    | 30 +++++++++++++++----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/Accelerators/NNPA/Compiler/NNPAJsonConfigObject.cpp b/src/Accelerators/NNPA/Compiler/NNPAJsonConfigObject.cpp
index 123f28f..a2fb876 100644
--- a/src/Accelerators/NNPA/Compiler/NNPAJsonConfigObject.cpp
+++ b/src/Accelerators/NNPA/Compiler/NNPAJsonConfigObject.cpp
@@ -64,6 +64,14 @@ void NNPAJsonConfigObject::constructTensorInfo(
   if (!tensorType)
     return;
 
+  // Nothing but the element type is known of an unranked tensor.
+  if (!tensorType.hasRank()) {
+    std::string elemTypeStr;
+    llvm::raw_string_ostream(elemTypeStr) << tensorType.getElementType();
+    tensorInfoObj["type"] = elemTypeStr;
+    return;
+  }
+
   // Tensor information
   ArrayRef<int64_t> dims = tensorType.getShape();
   // Rank
@@ -230,8 +238,10 @@ bool NNPAJsonConfigObject::matchTensorInfo(
   for (const auto &kv : *patternObj) {
     StringRef k = kv.first;
     if (matched && k.equals_insensitive("rank")) {
-      matched = satisfiesIntegerConstraint(
-          targetObj.getString(k)->str(), patternObj->getString(k)->str());
+      std::optional<StringRef> targetRank = targetObj.getString("rank");
+      std::optional<StringRef> regRank = patternObj->getString(k);
+      matched = targetRank && regRank &&
+                satisfiesIntegerConstraint(targetRank->str(), regRank->str());
     }
     if (matched && k.equals_insensitive("type")) {
       matched = (targetObj.getString(k) == patternObj->getString(k));
@@ -240,11 +250,17 @@ bool NNPAJsonConfigObject::matchTensorInfo(
       // Match dimension constraints.
       json::Object *targetDims = targetObj.getObject(k);
       json::Object *regDims = patternObj->getObject(k);
-      int64_t rank = std::stoi(targetObj.getString("rank")->str());
+      if (regDims && !targetDims)
+        matched = regDims->empty();
       if (targetDims && regDims) {
+        int64_t rank = targetDims->size();
         for (const auto &dimKv : *regDims) {
           StringRef dimStrRef = dimKv.first;
-          int64_t dimIdx = std::stoi(dimStrRef.str());
+          int64_t dimIdx;
+          if (dimStrRef.getAsInteger(10, dimIdx)) {
+            matched = false;
+            break;
+          }
           std::optional<StringRef> regDimVal = regDims->getString(dimStrRef);
           // dimIdx can be < 0.
           if (dimIdx < 0)
@@ -285,7 +301,11 @@ bool NNPAJsonConfigObject::matchTensorInfo(
   for (const auto &kv : *patternObj) {
     StringRef k = kv.first;
     json::Object *v = patternObj->getObject(k);
-    int id = std::stoi(k.str());
+    int64_t id;
+    if (!v || k.getAsInteger(10, id)) {
+      matched = false;
+      break;
+    }
     if (id < 0)
       id += numValues;
     if (id < 0 || id >= numValues) {
-- 
2.43.0


From 8c6f0e32c53716fefa38f8b83113b558f3dfc164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:04 +0000
Subject: [PATCH 79/90] fix: constraints on large dimensions and a division by
 zero in a constraint

---
 .../NNPA/Compiler/NNPAJsonConfigObject.cpp    | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/Accelerators/NNPA/Compiler/NNPAJsonConfigObject.cpp b/src/Accelerators/NNPA/Compiler/NNPAJsonConfigObject.cpp
index a2fb876..c961342 100644
--- a/src/Accelerators/NNPA/Compiler/NNPAJsonConfigObject.cpp
+++ b/src/Accelerators/NNPA/Compiler/NNPAJsonConfigObject.cpp
@@ -150,7 +150,7 @@ static bool satisfiesIntegerConstraint(
 
   try {
     // Convert string 's' to integer value for comparison.
-    int64_t sValue = std::stoi(s);
+    int64_t sValue = std::stoll(s);
 
     // Check for modulo operation first (pattern: "%N==R").
     // Example: "%32==0" checks if value is divisible by 32.
@@ -158,9 +158,11 @@ static bool satisfiesIntegerConstraint(
       size_t eqPos = reg.find("==");
       if (eqPos != std::string::npos) {
         // Extract divisor N from "%N==R" (between '%' and "==").
-        int64_t modValue = std::stoi(reg.substr(1, eqPos - 1));
+        int64_t modValue = std::stoll(reg.substr(1, eqPos - 1));
         // Extract expected remainder R from "%N==R" (after "==").
-        int64_t expectedRemainder = std::stoi(reg.substr(eqPos + 2));
+        int64_t expectedRemainder = std::stoll(reg.substr(eqPos + 2));
+        if (modValue == 0)
+          return false;
         // Check if (sValue % modValue) equals expectedRemainder.
         return (sValue % modValue) == expectedRemainder;
       }
@@ -175,29 +177,29 @@ static bool satisfiesIntegerConstraint(
     // ">").
     if (reg.size() >= 2 && reg.substr(0, 2) == ">=") {
       op = ">=";
-      regValue = std::stoi(reg.substr(2)); // Extract number after ">=".
+      regValue = std::stoll(reg.substr(2)); // Extract number after ">=".
     } else if (reg.size() >= 2 && reg.substr(0, 2) == "<=") {
       op = "<=";
-      regValue = std::stoi(reg.substr(2)); // Extract number after "<=".
+      regValue = std::stoll(reg.substr(2)); // Extract number after "<=".
     } else if (reg.size() >= 2 && reg.substr(0, 2) == "==") {
       op = "==";
-      regValue = std::stoi(reg.substr(2)); // Extract number after "==".
+      regValue = std::stoll(reg.substr(2)); // Extract number after "==".
     } else if (reg.size() >= 2 && reg.substr(0, 2) == "!=") {
       op = "!=";
-      regValue = std::stoi(reg.substr(2)); // Extract number after "!=".
+      regValue = std::stoll(reg.substr(2)); // Extract number after "!=".
     }
     // Check single-character operators.
     else if (reg[0] == '>') {
       op = ">";
-      regValue = std::stoi(reg.substr(1)); // Extract number after ">".
+      regValue = std::stoll(reg.substr(1)); // Extract number after ">".
     } else if (reg[0] == '<') {
       op = "<";
-      regValue = std::stoi(reg.substr(1)); // Extract number after "<".
+      regValue = std::stoll(reg.substr(1)); // Extract number after "<".
     }
     // No operator detected - treat as implicit equality.
     else {
       op = "==";
-      regValue = std::stoi(reg); // Entire string is the number.
+      regValue = std::stoll(reg); // Entire string is the number.
     }
 
     // Perform the appropriate comparison based on the operator.
-- 
2.43.0


From e3600e1d78c8463796bf5ecae5c283b7fec7e0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:04 +0000
Subject: [PATCH 80/90] fix: index lookup of integers with 19 digits and a sign

---
 src/Runtime/OMIndexLookup.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Runtime/OMIndexLookup.c b/src/Runtime/OMIndexLookup.c
index 4c27f0b..e7230f1 100644
--- a/src/Runtime/OMIndexLookup.c
+++ b/src/Runtime/OMIndexLookup.c
@@ -33,7 +33,8 @@ static inline uint32_t hash_string(uint32_t hval, const char *str) {
 
 // Adaptation of 32-bit FNV for int64_t values.
 static inline uint32_t hash_int64(uint32_t hval, int64_t val) {
-  char str[20];
+  // Large enough for any value, its sign and the terminating null.
+  char str[24];
   int num_chars_written = snprintf(str, sizeof(str), "%lld", (long long)val);
   assert(num_chars_written >= 0); // Error: "snprintf write error to str".
   return hash_string(hval, str);
-- 
2.43.0


From 16b0a580f052f9c8c409096736d30ac795f8e1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:04 +0000
Subject: [PATCH 81/90] fix: the compiler may search forever for a perfect hash
 table

---
 src/Conversion/ONNXToKrnl/PerfectHash.cpp | 16 +++++++++++++++-
 src/Runtime/OMIndexLookup.c               | 14 +++++++++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/Conversion/ONNXToKrnl/PerfectHash.cpp b/src/Conversion/ONNXToKrnl/PerfectHash.cpp
index be8ba0f..c92a24e 100644
--- a/src/Conversion/ONNXToKrnl/PerfectHash.cpp
+++ b/src/Conversion/ONNXToKrnl/PerfectHash.cpp
@@ -29,15 +29,29 @@ namespace onnx_mlir {
 
 class Utilities {
 public:
-  // Perform a 32-bit FNV (Fowler-Noll-Vo) hash on the given string.
+  // Perform a 32-bit FNV (Fowler-Noll-Vo) hash on the given string. The low
+  // bits of this hash only depend on the low bits of hval and of the
+  // characters. So for a table whose size has a power of two as factor, some
+  // keys get the same slot for every hval. When hval is large, because no small
+  // value is suitable, mix in the high bits too.
+  // This must match the hash used by the runtime (OMIndexLookup.c).
   static inline uint32_t hash(uint32_t hval, llvm::StringRef str) {
     constexpr uint32_t prime = 0x01000193;
+    constexpr uint32_t firstMixedHval = 0x10000;
+    bool mix = (hval >= firstMixedHval);
     hval = (hval == 0) ? prime : hval;
 
     for (const char c : str) {
       hval *= prime;
       hval ^= c;
     }
+    if (mix) {
+      hval ^= hval >> 16;
+      hval *= 0x85ebca6b;
+      hval ^= hval >> 13;
+      hval *= 0xc2b2ae35;
+      hval ^= hval >> 16;
+    }
     return hval;
   }
 
diff --git a/src/Runtime/OMIndexLookup.c b/src/Runtime/OMIndexLookup.c
index e7230f1..97b60c7 100644
--- a/src/Runtime/OMIndexLookup.c
+++ b/src/Runtime/OMIndexLookup.c
@@ -17,9 +17,14 @@
 #include <stdio.h>
 #include <string.h>
 
-// Perform a 32-bit FNV (Fowler-Noll-Vo) hash on the given string.
+// Perform a 32-bit FNV (Fowler-Noll-Vo) hash on the given string. The low bits
+// of this hash only depend on the low bits of hval and of the characters. When
+// hval is large (see PerfectHash in the compiler), mix in the high bits too.
+// This must match the hash used by the compiler.
 static inline uint32_t hash_string(uint32_t hval, const char *str) {
   uint32_t prime = 0x01000193;
+  uint32_t first_mixed_hval = 0x10000;
+  int mix = (hval >= first_mixed_hval);
   hval = (hval == 0) ? prime : hval;
 
   int32_t len = strlen(str);
@@ -28,6 +33,13 @@ static inline uint32_t hash_string(uint32_t hval, const char *str) {
     hval *= prime;
     hval ^= c;
   }
+  if (mix) {
+    hval ^= hval >> 16;
+    hval *= 0x85ebca6b;
+    hval ^= hval >> 13;
+    hval *= 0xc2b2ae35;
+    hval ^= hval >> 16;
+  }
   return hval;
 }
 
-- 
2.43.0


From f3379afdf251cd9f00cdc7d35faf7f3af95e67ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:04 +0000
Subject: [PATCH 82/90] fix: linear and cubic Resize of tensors whose rank is
 not 4

---
 src/Runtime/OMResize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Runtime/OMResize.c b/src/Runtime/OMResize.c
index fbc7b1b..249004d 100644
--- a/src/Runtime/OMResize.c
+++ b/src/Runtime/OMResize.c
@@ -294,7 +294,7 @@ static void interpolate_nd_OMTensor(OMTensor *output_OMT, OMTensor *data,
     }
     float r = interpolate_nd_with_x(
         /*OMTensor */ data,
-        /* n */ 4,
+        /* n */ rank,
         /*float scale_factor*/ scale_factor,
         /*floats *x*/ Xs,
         /* Coeff_Func_t*/ get_coeffs,
-- 
2.43.0


From 3bba9c9501e875b8babf3ceef576dcb4407a00e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:26 +0000
Subject: [PATCH 83/90] fix: Resize picks the wrong neighbors next to an input
 element

---
 src/Runtime/OMResize.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/Runtime/OMResize.c b/src/Runtime/OMResize.c
index 249004d..a202be7 100644
--- a/src/Runtime/OMResize.c
+++ b/src/Runtime/OMResize.c
@@ -76,8 +76,9 @@ static void get_neighbor(float x, int64_t n, int limit, float *data,
   // If the central idx is right to x (>= x), favor the left one
   // == from the example
 
-  int pad_width = ceil(n / 2);
-  x += pad_width;
+  // There is no need to add a padding width to x, as the bounds are checked
+  // below. Adding it would round x: the neighbors would no longer be those the
+  // coefficients were computed for.
   float r = x - floor(x);
 
   int start, end;
@@ -108,9 +109,6 @@ static void get_neighbor(float x, int64_t n, int limit, float *data,
     }
   }
 
-  start -= pad_width;
-  end -= pad_width;
-
   for (int i = start; i <= end; i++) {
     if (i < 0) {
       if (exclude_outside)
-- 
2.43.0


From b42cc2f68283740453d9116c5684c0755d3dad4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:26 +0000
Subject: [PATCH 84/90] fix: Unique along an axis sorts the slices in
 column-major order

---
 src/Runtime/OMUnique.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/Runtime/OMUnique.c b/src/Runtime/OMUnique.c
index a33221b..df412dd 100644
--- a/src/Runtime/OMUnique.c
+++ b/src/Runtime/OMUnique.c
@@ -168,12 +168,13 @@ static void getSliceData(const OMTensor *inputTensor, int64_t sliceAxis,
   uint64_t dim[6];
   int64_t outputIdx = 0;
 
-  for (dim[5] = 0; dim[5] < shapeInUniqueAxis[5]; dim[5]++) {
-    for (dim[4] = 0; dim[4] < shapeInUniqueAxis[4]; dim[4]++) {
-      for (dim[3] = 0; dim[3] < shapeInUniqueAxis[3]; dim[3]++) {
-        for (dim[2] = 0; dim[2] < shapeInUniqueAxis[2]; dim[2]++) {
-          for (dim[1] = 0; dim[1] < shapeInUniqueAxis[1]; dim[1]++) {
-            for (dim[0] = 0; dim[0] < shapeInUniqueAxis[0]; dim[0]++) {
+  // Row-major order: the slices are compared in this order of their elements.
+  for (dim[0] = 0; dim[0] < shapeInUniqueAxis[0]; dim[0]++) {
+    for (dim[1] = 0; dim[1] < shapeInUniqueAxis[1]; dim[1]++) {
+      for (dim[2] = 0; dim[2] < shapeInUniqueAxis[2]; dim[2]++) {
+        for (dim[3] = 0; dim[3] < shapeInUniqueAxis[3]; dim[3]++) {
+          for (dim[4] = 0; dim[4] < shapeInUniqueAxis[4]; dim[4]++) {
+            for (dim[5] = 0; dim[5] < shapeInUniqueAxis[5]; dim[5]++) {
               uint64_t tdim[6] = {
                   dim[0], dim[1], dim[2], dim[3], dim[4], dim[5]};
               tdim[sliceAxis] = idxInSliceAxis;
-- 
2.43.0


From 3169686912ce536e98688d657e345e95969bdf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:26 +0000
Subject: [PATCH 85/90] fix: Unique writes outside of outputs that are not used

---
 src/Runtime/OMUnique.c | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/Runtime/OMUnique.c b/src/Runtime/OMUnique.c
index df412dd..5e5029e 100644
--- a/src/Runtime/OMUnique.c
+++ b/src/Runtime/OMUnique.c
@@ -266,8 +266,8 @@ static int sliceTableRegister(sliceTable *table, void *slice, uint64_t off) {
 // If the axis attr is not given, sliceTableRegister generates the output Y
 //  directly, since the output is a simple array of unique elements.
 //
-static void produceY(const OMTensor *inputTensor, OMTensor *indices,
-    int64_t sliceAxis, OMTensor *Y) {
+static void produceY(const OMTensor *inputTensor, const int64_t *indicesPtr,
+    int64_t count, int64_t sliceAxis, OMTensor *Y) {
   const int64_t inputRank = omTensorGetRank(inputTensor);
   assert(inputRank <= 6); // Error: "input rank should be 6 or less".
   assert(sliceAxis <
@@ -275,11 +275,6 @@ static void produceY(const OMTensor *inputTensor, OMTensor *indices,
   const int64_t *inputShape = omTensorGetShape(inputTensor);
   const int64_t *inputStrides = omTensorGetStrides(inputTensor);
   void *inputPtr = omTensorGetDataPtr(inputTensor);
-  const int64_t indicesRank = omTensorGetRank(indices);
-  assert(indicesRank == 1); // Error: "indices rank should be 1".
-  const int64_t *indicesShape = omTensorGetShape(indices);
-  const int64_t count = indicesShape[0];
-  int64_t *indicesPtr = (int64_t *)omTensorGetDataPtr(indices);
   void *YPtr = omTensorGetDataPtr(Y);
 
   const OM_DATA_TYPE dataType = omTensorGetDataType(inputTensor);
@@ -334,6 +329,14 @@ static void produceY(const OMTensor *inputTensor, OMTensor *indices,
   }
 }
 
+// Return the data of an optional output, or NULL if it is not required. The
+// compiler gives a tensor without elements for an output that is not required.
+static void *getOptionalOutputPtr(OMTensor *output) {
+  if (output == NULL || omTensorGetNumElems(output) == 0)
+    return NULL;
+  return omTensorGetDataPtr(output);
+}
+
 //
 // "omTensorUnique" handles two cases, where are (1) case with no axis given
 // (2) case with axis given.
@@ -359,10 +362,9 @@ void omTensorUnique(OMTensor *totalTensor, OMTensor *Y, OMTensor *indices,
   const int64_t *inputShape = omTensorGetShape(inputTensor);
   void *inputPtr = omTensorGetDataPtr(inputTensor);
   void *YPtr = (Y != NULL) ? omTensorGetDataPtr(Y) : NULL;
-  void *indicesPtr = (indices != NULL) ? omTensorGetDataPtr(indices) : NULL;
-  void *inverseIndicesPtr =
-      (inverse_indices != NULL) ? omTensorGetDataPtr(inverse_indices) : NULL;
-  void *countsPtr = (counts != NULL) ? omTensorGetDataPtr(counts) : NULL;
+  void *indicesPtr = getOptionalOutputPtr(indices);
+  void *inverseIndicesPtr = getOptionalOutputPtr(inverse_indices);
+  void *countsPtr = getOptionalOutputPtr(counts);
   uint64_t dataSize = getDataTypeSize(dataType);
   assert(dataSize > 0); // Test for unsupported types.
 
@@ -391,7 +393,7 @@ void omTensorUnique(OMTensor *totalTensor, OMTensor *Y, OMTensor *indices,
     void *sliceDataPtr =
         (YPtr == NULL) ? alloca(numOfElementsInSlice * numOfSlices * dataSize)
                        : YPtr;
-    if ((Y != NULL) && (indices == NULL)) {
+    if ((Y != NULL) && (indicesPtr == NULL)) {
       // temporal indices buffer is necessary to generate Y from indices
       indicesPtr = alloca(numOfSlices * sizeof(int64_t));
     }
@@ -407,7 +409,7 @@ void omTensorUnique(OMTensor *totalTensor, OMTensor *Y, OMTensor *indices,
       }
     }
     if ((count > 0) && (Y != NULL)) {
-      produceY(inputTensor, indices, sliceAxis, Y);
+      produceY(inputTensor, (int64_t *)indicesPtr, count, sliceAxis, Y);
     }
   }
   *totalPtr = count;
-- 
2.43.0


From d4bb9c1624a6ad622c7dda4dfc0bfccd7566b869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:49 +0000
Subject: [PATCH 86/90] fix: Unique overflows the stack when the input is large

---
 src/Runtime/OMUnique.c | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/Runtime/OMUnique.c b/src/Runtime/OMUnique.c
index 5e5029e..77886c1 100644
--- a/src/Runtime/OMUnique.c
+++ b/src/Runtime/OMUnique.c
@@ -329,6 +329,14 @@ static void produceY(const OMTensor *inputTensor, const int64_t *indicesPtr,
   }
 }
 
+// Allocate a temporary buffer. Its size depends on the size of the input, which
+// may exceed the size of the stack.
+static void *allocTempBuffer(uint64_t size) {
+  void *buffer = malloc(size > 0 ? size : 1);
+  assert(buffer); // Error: "failed to allocate memory for a temporary buffer".
+  return buffer;
+}
+
 // Return the data of an optional output, or NULL if it is not required. The
 // compiler gives a tensor without elements for an output that is not required.
 static void *getOptionalOutputPtr(OMTensor *output) {
@@ -375,7 +383,10 @@ void omTensorUnique(OMTensor *totalTensor, OMTensor *Y, OMTensor *indices,
     uint64_t elementNum = 1;
     for (int64_t i = 0; i < inputRank; i++)
       elementNum *= inputShape[i];
-    void *sliceDataPtr = (YPtr == NULL) ? alloca(dataSize * elementNum) : YPtr;
+    void *tempSliceData = NULL;
+    if (YPtr == NULL)
+      tempSliceData = allocTempBuffer(dataSize * elementNum);
+    void *sliceDataPtr = (YPtr == NULL) ? tempSliceData : YPtr;
     sliceTableInit(&sliceTable, dataType, sorted, 1, elementNum, sliceDataPtr,
         (uint64_t *)indicesPtr, (uint64_t *)inverseIndicesPtr,
         (uint64_t *)countsPtr);
@@ -385,22 +396,27 @@ void omTensorUnique(OMTensor *totalTensor, OMTensor *Y, OMTensor *indices,
         count++;
       }
     }
+    free(tempSliceData);
   } else { // if slice attribute is specified
     int64_t numOfSlices = inputShape[sliceAxis];
     int64_t numOfElementsInSlice = 1;
     for (int64_t i = 0; i < inputRank; i++)
       numOfElementsInSlice *= (i == sliceAxis) ? 1 : inputShape[i];
-    void *sliceDataPtr =
-        (YPtr == NULL) ? alloca(numOfElementsInSlice * numOfSlices * dataSize)
-                       : YPtr;
+    void *tempSliceData = NULL;
+    void *tempIndices = NULL;
+    if (YPtr == NULL)
+      tempSliceData =
+          allocTempBuffer(numOfElementsInSlice * numOfSlices * dataSize);
+    void *sliceDataPtr = (YPtr == NULL) ? tempSliceData : YPtr;
     if ((Y != NULL) && (indicesPtr == NULL)) {
       // temporal indices buffer is necessary to generate Y from indices
-      indicesPtr = alloca(numOfSlices * sizeof(int64_t));
+      tempIndices = allocTempBuffer(numOfSlices * sizeof(int64_t));
+      indicesPtr = tempIndices;
     }
     sliceTableInit(&sliceTable, dataType, sorted, numOfElementsInSlice,
         numOfSlices, sliceDataPtr, (uint64_t *)indicesPtr,
         (uint64_t *)inverseIndicesPtr, (uint64_t *)countsPtr);
-    void *sliceData = alloca(numOfElementsInSlice * dataSize);
+    void *sliceData = allocTempBuffer(numOfElementsInSlice * dataSize);
     for (int idxInSliceAxis = 0; idxInSliceAxis < numOfSlices;
          idxInSliceAxis++) {
       getSliceData(inputTensor, sliceAxis, idxInSliceAxis, sliceData);
@@ -411,6 +427,9 @@ void omTensorUnique(OMTensor *totalTensor, OMTensor *Y, OMTensor *indices,
     if ((count > 0) && (Y != NULL)) {
       produceY(inputTensor, (int64_t *)indicesPtr, count, sliceAxis, Y);
     }
+    free(sliceData);
+    free(tempIndices);
+    free(tempSliceData);
   }
   *totalPtr = count;
 #if _DEBUG_OMTENSOR
-- 
2.43.0


From 41499b3449d39c90237593aebd3f386a17165889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:42 +0000
Subject: [PATCH 87/90] fix: TopK drops the wrong one of equal elements

---
 src/Runtime/OMTopK.c | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/Runtime/OMTopK.c b/src/Runtime/OMTopK.c
index 71dc4b1..9dbefaf 100644
--- a/src/Runtime/OMTopK.c
+++ b/src/Runtime/OMTopK.c
@@ -53,24 +53,24 @@ static void heap_sift_down(uint64_t *heap, int64_t start, int64_t end,
     int64_t child = root * 2 + 1;
     int64_t swap_idx = root;
 
-    // Check if root is "worse" than left child
+    // Check if left child is "worse" than root
     int comparison = 0;
 #if defined(__APPLE__) || defined(_MSC_VER)
-    comparison = compare(data, &heap[swap_idx], &heap[child]);
+    comparison = compare(data, &heap[child], &heap[swap_idx]);
 #else
-    comparison = compare(&heap[swap_idx], &heap[child], data);
+    comparison = compare(&heap[child], &heap[swap_idx], data);
 #endif
     if (comparison > 0) {
       swap_idx = child;
     }
 
-    // Check if right child exists and is "better" than current swap_idx
+    // Check if right child exists and is "worse" than current swap_idx
     if (child + 1 <= end) {
       comparison = 0;
 #if defined(__APPLE__) || defined(_MSC_VER)
-      comparison = compare(data, &heap[swap_idx], &heap[child + 1]);
+      comparison = compare(data, &heap[child + 1], &heap[swap_idx]);
 #else
-      comparison = compare(&heap[swap_idx], &heap[child + 1], data);
+      comparison = compare(&heap[child + 1], &heap[swap_idx], data);
 #endif
       if (comparison > 0) {
         swap_idx = child + 1;
@@ -145,19 +145,19 @@ void omTensorTopK(OMTensor *orderTensor, const OMTensor *inputTensor,
     return;
   }
 
-  // 1. Get the heap comparator.
-  // To get Top-K "Largest" (ascending=0), we build a MIN-heap.
-  // To get Top-K "Smallest" (ascending=1), we build a MAX-heap.
-  // This uses the opposite ascending direction.
-  compareFunctionType *heapCompare =
-      getCompareFunction(1 - ascending, dataType);
-  if (!heapCompare)
-    return; // Unsupported data type
-
-  // 2. Get the loop comparator.
+  // 1. Get the loop comparator.
   // This checks if a new element is "better" than the heap root.
   // This uses the correct ascending direction.
   compareFunctionType *loopCompare = getCompareFunction(ascending, dataType);
+  if (!loopCompare)
+    return; // Unsupported data type
+
+  // 2. Get the heap comparator (same as loop).
+  // The root of the heap is the element that comes last according to this
+  // comparator: also among elements with the same value, for which it is the
+  // one with the largest index. (With the opposite direction, it would be the
+  // one with the smallest index.)
+  compareFunctionType *heapCompare = loopCompare;
 
   // 3. Get the final sort comparator (same as loop).
   compareFunctionType *sortCompare = loopCompare;
-- 
2.43.0


From 53f1b0b80b4f0ee6b20623850db4ffc6b373423e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:29 +0000
Subject: [PATCH 88/90] fix: Python client ignores that the local compiler
 failed

The status of the compiler was not looked at: with -o, the library that an
earlier compilation left there was loaded and run instead.
---
 src/Runtime/python/onnxmlirdocker.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Runtime/python/onnxmlirdocker.py b/src/Runtime/python/onnxmlirdocker.py
index 931c1ab..4a0b7a1 100644
--- a/src/Runtime/python/onnxmlirdocker.py
+++ b/src/Runtime/python/onnxmlirdocker.py
@@ -247,7 +247,13 @@ class InferenceSession:
         # Logically, the model directory could be mounted as read only.
         # But wrong time error occurred with "r" mode
         if self.compiler_image_name is None:
-            subprocess.run(command_str.split(" "))
+            # Do not go on with what an earlier compilation may have left if
+            # this one fails
+            status = subprocess.run(command_str.split(" ")).returncode
+            if status != 0:
+                print(f"Failed in compilation with status {status}")
+                print(f"Here is the compiling command: {command_str}")
+                exit(-1)
             self.container = None
         else:
             # ToFix: try detach=True?
-- 
2.43.0


From 2bc7812c592e1d8d3e3e7cd0fadc0cce7cee3e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:29 +0000
Subject: [PATCH 89/90] fix: Python client splits paths and options at every
 space

A model, output or compiler path with a space, or two spaces between options,
became wrong arguments of the compiler.
---
 src/Runtime/python/onnxmlirdocker.py | 33 ++++++++++++++++------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/Runtime/python/onnxmlirdocker.py b/src/Runtime/python/onnxmlirdocker.py
index 4a0b7a1..cb51c4c 100644
--- a/src/Runtime/python/onnxmlirdocker.py
+++ b/src/Runtime/python/onnxmlirdocker.py
@@ -16,6 +16,7 @@ import os
 import sys
 import tempfile
 import json
+import shlex
 import subprocess
 
 
@@ -102,7 +103,7 @@ class InferenceSession:
         # Parse the compile_options to handle the -o option.
         # If user does not specify the output, the compilation will be done in
         # the temporary directory.
-        options_list = self.compile_options.split()
+        options_list = shlex.split(self.compile_options)
 
         # Logically, container_output_dirname should be used for -o
         if "-o" in options_list:
@@ -113,7 +114,6 @@ class InferenceSession:
             )
             options_list[options_list.index("-o") + 1] = self.compiled_model
 
-            self.compile_options = " ".join(options_list)
             if not self.compiled_model.endswith(".so"):
                 self.compiled_model += ".so"
             self.output_dirname = os.path.dirname(self.compiled_model)
@@ -122,10 +122,11 @@ class InferenceSession:
             self.compiled_model = os.path.join(
                 self.output_dirname, self.model_basename.removesuffix(self.model_suffix)
             )
-            self.compile_options += f" -o {self.compiled_model}"
+            options_list += ["-o", self.compiled_model]
             # Compile will automatically append .so to the -o target
             # Session need the suffix .so
             self.compiled_model += ".so"
+        self.compile_options_list = options_list
 
         if "compiler_image_name" in kwargs.keys():
             self.compiler_image_name = kwargs["compiler_image_name"]
@@ -210,7 +211,7 @@ class InferenceSession:
                 self.mount_compiler = False
                 try:
                     msg = self.container_client.containers.run(
-                        self.compiler_image_name, self.compiler_path + " --version"
+                        self.compiler_image_name, self.compilerCommand() + ["--version"]
                     )
                     # Could check the valid version of compiler
                 except Exception as e:
@@ -220,6 +221,11 @@ class InferenceSession:
                     )
                     exit(-1)
 
+    # The command is a list of arguments, as paths may have spaces in them. An
+    # image whose entry point is the compiler only takes the arguments.
+    def compilerCommand(self):
+        return [self.compiler_path] if self.compiler_path else []
+
     def Compile(self):
         # Logically use different variable for path in current env and
         # container env. They could be different.
@@ -230,18 +236,17 @@ class InferenceSession:
         self.container_output_dirname = self.output_dirname
 
         # Construct compilation command
-        command_str = self.compiler_path
+        command = self.compilerCommand()
 
-        # Compiled library
-        if self.compile_options != "":
-            command_str += " " + self.compile_options
+        # Options, including the compiled library
+        command += self.compile_options_list
 
-        command_str += " --tag=" + self.compile_tag
+        command.append("--tag=" + self.compile_tag)
 
-        command_str += " " + os.path.join(
-            self.container_model_dirname, self.model_basename
-        )
+        command.append(os.path.join(self.container_model_dirname, self.model_basename))
 
+        # Only used for messages
+        command_str = shlex.join(command)
         # print(command_str)
 
         # Logically, the model directory could be mounted as read only.
@@ -249,7 +254,7 @@ class InferenceSession:
         if self.compiler_image_name is None:
             # Do not go on with what an earlier compilation may have left if
             # this one fails
-            status = subprocess.run(command_str.split(" ")).returncode
+            status = subprocess.run(command).returncode
             if status != 0:
                 print(f"Failed in compilation with status {status}")
                 print(f"Here is the compiling command: {command_str}")
@@ -260,7 +265,7 @@ class InferenceSession:
             try:
                 msg = self.container_client.containers.run(
                     self.compiler_image_name,
-                    command_str,
+                    command,
                     volumes={
                         self.model_dirname: {
                             "bind": self.container_model_dirname,
-- 
2.43.0


From e93f186a615eaa031ddad83b69a414120774e102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:29 +0000
Subject: [PATCH 90/90] fix: Python client looks for the wrong library if -o
 ends in .so

The compiler appends .so to the name it is given, so it wrote NAME.so.so while
the client loaded NAME.so, if an earlier compilation had left one.
---
 src/Runtime/python/onnxmlirdocker.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Runtime/python/onnxmlirdocker.py b/src/Runtime/python/onnxmlirdocker.py
index cb51c4c..a53e731 100644
--- a/src/Runtime/python/onnxmlirdocker.py
+++ b/src/Runtime/python/onnxmlirdocker.py
@@ -112,7 +112,10 @@ class InferenceSession:
             self.compiled_model = os.path.abspath(
                 options_list[options_list.index("-o") + 1]
             )
-            options_list[options_list.index("-o") + 1] = self.compiled_model
+            # The compiler appends .so to the -o target
+            options_list[options_list.index("-o") + 1] = (
+                self.compiled_model.removesuffix(".so")
+            )
 
             if not self.compiled_model.endswith(".so"):
                 self.compiled_model += ".so"
-- 
2.43.0

