From 3182bbb00dbbd20c98eebb12b7d44d40ed5a322a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:46 +0000
Subject: [PATCH 01/19] fix: Resolve the target of an alias which points at
 another alias

findMatchingRegion() translates the address into the aliased region, but
CreateAlias() kept the untranslated address together with the translated
region. Accesses through such an alias used memory outside of the region.
---
 libCrashDebug/src/MemorySim.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libCrashDebug/src/MemorySim.c b/libCrashDebug/src/MemorySim.c
index e10c041..c8310b5 100644
--- a/libCrashDebug/src/MemorySim.c
+++ b/libCrashDebug/src/MemorySim.c
@@ -216,8 +216,8 @@ void MemorySim_CreateAlias(IMemory* pMemory, uint32_t aliasAddress, uint32_t red
     {
         pRegion = throwingZeroedMalloc(sizeof(*pRegion));
         pRegion->baseAddress = aliasAddress;
-        pRegion->redirectAddress = redirectAddress;
         pRedirect = findMatchingRegion(pThis, &redirectAddress, 1);
+        pRegion->redirectAddress = redirectAddress;
         uint32_t maxSize = pRedirect->size - (pRegion->redirectAddress - pRedirect->baseAddress);
         if (size > maxSize)
             pRegion->size = maxSize;
-- 
2.43.0


From 8d81230bf1b020abb97c40f17b72ca4e168128be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:46 +0000
Subject: [PATCH 02/19] fix: Making a region read-only twice or without memory
 for its counts

Protecting a region for a second time leaked and zeroed its read counts. When
the counts couldn't be allocated, the region was left read-only without any
counts and MemorySim_GetFlashReadCount() then dereferenced a NULL pointer.
---
 libCrashDebug/src/MemorySim.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libCrashDebug/src/MemorySim.c b/libCrashDebug/src/MemorySim.c
index c8310b5..68c827f 100644
--- a/libCrashDebug/src/MemorySim.c
+++ b/libCrashDebug/src/MemorySim.c
@@ -241,8 +241,11 @@ void MemorySim_MakeRegionReadOnly(IMemory* pMemory, uint32_t baseAddress)
 {
     MemorySim* pThis = (MemorySim*)pMemory;
     MemoryRegion* pRegion = findMatchingRegion(pThis, &baseAddress, 1);
-    pRegion->isReadOnly = 1;
+
+    if (pRegion->isReadOnly)
+        return;
     allocateReadCountArrayForReadOnlyRegion(pRegion);
+    pRegion->isReadOnly = 1;
 }
 
 static MemoryRegion* findMatchingRegion(MemorySim* pThis, uint32_t* pAddress, uint32_t size)
-- 
2.43.0


From 02fa84d034d56217fc39ea6affa04d3a2d7e0d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:46 +0000
Subject: [PATCH 03/19] fix: Memory map type of an alias whose region becomes
 read-only later

Writes through such an alias fail but the memory map still called it ram.
---
 libCrashDebug/src/MemorySim.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libCrashDebug/src/MemorySim.c b/libCrashDebug/src/MemorySim.c
index 68c827f..89642cb 100644
--- a/libCrashDebug/src/MemorySim.c
+++ b/libCrashDebug/src/MemorySim.c
@@ -68,6 +68,7 @@ static void allocateMemoryMapXML(MemorySim* pThis, size_t allocSize);
 static void appendMemoryMapXmlHeader(MemorySim* pThis, SizedBuffer* pBuffer);
 static void appendMemoryMapRegions(MemorySim* pThis, SizedBuffer* pBuffer);
 static void appendMemoryMapXmlTrailer(MemorySim* pThis, SizedBuffer* pBuffer);
+static int isRegionReadOnly(MemoryRegion* pRegion);
 static void setWatchpoint(IMemory* pMemory, uint32_t address, uint32_t size, WatchpointType type);
 static MatchResult findMatchingOrHigherWatchpoint(MemoryRegion* pRegion, Watchpoint* pKey, uint32_t* pIndex);
 static int compareWatchpoints(const void* pvKey, const void* pvCurr);
@@ -409,10 +410,10 @@ static void appendMemoryMapRegions(MemorySim* pThis, SizedBuffer* pBuffer)
     {
         bytesUsed = snprintf(pBuffer->pBuffer, pBuffer->size,
                              "<memory type=\"%s\" start=\"0x%X\" length=\"0x%X\">%s</memory>",
-                             pCurr->isReadOnly ? "flash" : "ram",
+                             isRegionReadOnly(pCurr) ? "flash" : "ram",
                              pCurr->baseAddress,
                              pCurr->size,
-                             pCurr->isReadOnly ? " <property name=\"blocksize\">1</property>" : "");
+                             isRegionReadOnly(pCurr) ? " <property name=\"blocksize\">1</property>" : "");
         assert (bytesUsed < (int)pBuffer->size);
         pBuffer->pBuffer += bytesUsed;
         pBuffer->size -= bytesUsed;
@@ -421,6 +422,11 @@ static void appendMemoryMapRegions(MemorySim* pThis, SizedBuffer* pBuffer)
     }
 }
 
+static int isRegionReadOnly(MemoryRegion* pRegion)
+{
+    return pRegion->isAlias ? pRegion->pRedirect->isReadOnly : pRegion->isReadOnly;
+}
+
 static void appendMemoryMapXmlTrailer(MemorySim* pThis, SizedBuffer* pBuffer)
 {
     assert (pBuffer->size >= sizeof(g_xmlTrailer));
-- 
2.43.0


From 4dac0ed0e2fd01c9b42a8536463c49ce1d8c428e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:46 +0000
Subject: [PATCH 04/19] fix: Break/watchpoints and accesses which end at the
 top of the address space

Their 32-bit end address wrapped around to 0 so that such watchpoints never
matched and such accesses matched every watchpoint below them.
---
 libCrashDebug/src/MemorySim.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libCrashDebug/src/MemorySim.c b/libCrashDebug/src/MemorySim.c
index 89642cb..8bf4755 100644
--- a/libCrashDebug/src/MemorySim.c
+++ b/libCrashDebug/src/MemorySim.c
@@ -79,7 +79,7 @@ static void* getDataPointer(MemorySim* pThis, uint32_t address, uint32_t size, A
 static void checkForBreakWatchPoint(MemorySim* pThis,
                                     MemoryRegion* pRegion,
                                     uint32_t address, uint32_t size, AccessType type);
-static int accessInRange(Watchpoint* pWatchpoint, uint32_t startAddress, uint32_t endAddress);
+static int accessInRange(Watchpoint* pWatchpoint, uint32_t startAddress, uint64_t endAddress);
 
 static uint32_t read32(IMemory* pMemory, uint32_t address);
 static uint16_t read16(IMemory* pMemory, uint32_t address);
@@ -94,7 +94,7 @@ struct Watchpoint
 {
     WatchpointType type;
     uint32_t       startAddress;
-    uint32_t       endAddress;
+    uint64_t       endAddress;
 
 };
 
@@ -468,7 +468,7 @@ __throws void MemorySim_SetHardwareBreakpoint(IMemory* pMemory, uint32_t address
 static void setWatchpoint(IMemory* pMemory, uint32_t address, uint32_t size, WatchpointType type)
 {
     MemoryRegion* pRegion = findMatchingRegion((MemorySim*)pMemory, &address, size);
-    uint32_t      endAddress = address + size;
+    uint64_t      endAddress = (uint64_t)address + size;
     Watchpoint    watchpoint = {type, address, endAddress};
     uint32_t      i;
     MatchResult   match = findMatchingOrHigherWatchpoint(pRegion, &watchpoint, &i);
@@ -545,7 +545,7 @@ __throws void MemorySim_ClearHardwareBreakpoint(IMemory* pMemory, uint32_t addre
 static void clearWatchpoint(IMemory* pMemory, uint32_t address, uint32_t size, WatchpointType type)
 {
     MemoryRegion* pRegion = findMatchingRegion((MemorySim*)pMemory, &address, size);
-    uint32_t      endAddress = address + size;
+    uint64_t      endAddress = (uint64_t)address + size;
     Watchpoint    watchpoint = {type, address, endAddress};
     uint32_t      i;
     MatchResult   match = findMatchingOrHigherWatchpoint(pRegion, &watchpoint, &i);
@@ -631,7 +631,7 @@ static void checkForBreakWatchPoint(MemorySim* pThis,
                                     MemoryRegion* pRegion,
                                     uint32_t address, uint32_t size, AccessType type)
 {
-    uint32_t endAddress = address + size;
+    uint64_t endAddress = (uint64_t)address + size;
     uint32_t i;
 
     for (i = 0 ; i < pRegion->watchpointCount ; i++)
@@ -656,7 +656,7 @@ static void checkForBreakWatchPoint(MemorySim* pThis,
     }
 }
 
-static int accessInRange(Watchpoint* pWatchpoint, uint32_t startAddress, uint32_t endAddress)
+static int accessInRange(Watchpoint* pWatchpoint, uint32_t startAddress, uint64_t endAddress)
 {
     return startAddress >= pWatchpoint->startAddress && endAddress <= pWatchpoint->endAddress;
 }
-- 
2.43.0


From 045d99df4cad6731771f04c4ba9348cf36a86803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:35 +0000
Subject: [PATCH 05/19] fix: ELF file offset plus size which overflows 32 bits

Such ranges were taken to lie inside of the file and the data was then read
from outside of it.
---
 libCrashDebug/src/ElfLoad.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libCrashDebug/src/ElfLoad.c b/libCrashDebug/src/ElfLoad.c
index 4455583..cb1f9cd 100644
--- a/libCrashDebug/src/ElfLoad.c
+++ b/libCrashDebug/src/ElfLoad.c
@@ -70,7 +70,7 @@ static SizedBlob initSizedBlob(const char* pBlob, size_t blobSize)
 
 static const void* fetchSizedByteArray(const SizedBlob* pBlob, uint32_t offset, uint32_t size)
 {
-    if (offset > pBlob->blobSize || (offset + size) > pBlob->blobSize)
+    if (offset > pBlob->blobSize || size > pBlob->blobSize - offset)
         __throw(elfFormatException);
     return (void*)(pBlob->pBlob + offset);
 }
-- 
2.43.0


From b2e6aa586ab1601919e94c782b069a0e6023b421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:17 +0000
Subject: [PATCH 06/19] fix: Hex dump which ends in the middle of a byte at the
 end of a region

---
 libCrashDebug/src/CrashCatcherDump.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libCrashDebug/src/CrashCatcherDump.c b/libCrashDebug/src/CrashCatcherDump.c
index 7baf723..0797b30 100644
--- a/libCrashDebug/src/CrashCatcherDump.c
+++ b/libCrashDebug/src/CrashCatcherDump.c
@@ -275,7 +275,7 @@ static int hexRead(Object* pObject, void* pBuffer, size_t bytesToRead)
             break;
         result = readNextCharacterSkippingNewLines(pObject, &loNibble);
         if (result != 1)
-            break;
+            return -1;
         *pCurr++ = (nibbleDigitToVal(hiNibble) << 4) | nibbleDigitToVal(loNibble);
         bytesRead++;
     }
-- 
2.43.0


From eb807dff80d67de6c0d0cf14a657379a05d8051d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:33 +0000
Subject: [PATCH 07/19] fix: GDB log memory lines with less than four values or
 none at all

---
 libCrashDebug/src/GdbLogParser.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libCrashDebug/src/GdbLogParser.c b/libCrashDebug/src/GdbLogParser.c
index ee3abf2..f34a150 100644
--- a/libCrashDebug/src/GdbLogParser.c
+++ b/libCrashDebug/src/GdbLogParser.c
@@ -240,6 +240,8 @@ static ParseResults parseMemoryLine(const char* pLine)
     pLine = parseAddress(&results, pLine);
     while (areMoreValuesToParseOnLine(&results, pLine))
         pLine = skipWhitespaceSymbolsAndParseNextValue(&results, pLine);
+    if (results.valueCount == 0)
+        return parseOtherLine(pLine);
     return results;
 }
 
@@ -299,8 +301,13 @@ static const char* skipSymbol(const char* pLine)
 
 static const char* parseValue(ParseResults* pResults, const char* pLine)
 {
-    char* pNext = NULL;
-    pResults->values[pResults->valueCount++] = strtoul(pLine, &pNext, 0);
+    char*    pNext = NULL;
+    uint32_t value = strtoul(pLine, &pNext, 0);
+
+    // The line contains no more values once there is nothing left to be parsed as a number.
+    if (pNext == pLine)
+        return pLine + strlen(pLine);
+    pResults->values[pResults->valueCount++] = value;
     return pNext;
 }
 
-- 
2.43.0


From b669d91aa1ef360b355702f2f9495bc0c5ebcbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:33 +0000
Subject: [PATCH 08/19] fix: GDB source and frame lines taken for memory lines
 in GDB log

---
 libCrashDebug/src/GdbLogParser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libCrashDebug/src/GdbLogParser.c b/libCrashDebug/src/GdbLogParser.c
index f34a150..e57ff7f 100644
--- a/libCrashDebug/src/GdbLogParser.c
+++ b/libCrashDebug/src/GdbLogParser.c
@@ -207,7 +207,8 @@ static ParseResults parseLine(const char* pLine)
 
 static int isMemoryLine(const char* pLine)
 {
-    return (strlen(pLine) > 11 && is8DigitHexValue(pLine));
+    return (strlen(pLine) > 11 && is8DigitHexValue(pLine) &&
+            (pLine[10] == ':' || (pLine[10] == ' ' && pLine[11] == '<')));
 }
 
 static int is8DigitHexValue(const char* pLine)
-- 
2.43.0


From 3c271ab7eab860c3afbb39afa2d97f92d5e120ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:04 +0000
Subject: [PATCH 09/19] fix: GDB log memory at address 0 right after the end of
 the address space

---
 libCrashDebug/src/GdbLogParser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libCrashDebug/src/GdbLogParser.c b/libCrashDebug/src/GdbLogParser.c
index e57ff7f..d0e995e 100644
--- a/libCrashDebug/src/GdbLogParser.c
+++ b/libCrashDebug/src/GdbLogParser.c
@@ -140,7 +140,8 @@ static void firstPassHandler(ParseObject* pObject, const ParseResults* pParseRes
 
 static void firstPassMemoryHandler(ParseObject* pObject, const ParseResults* pParseResults)
 {
-    if (pParseResults->address != pObject->nextExpectedAddress)
+    // Address 0 is only expected once the previous region reached the end of the address space.
+    if (pParseResults->address != pObject->nextExpectedAddress || pParseResults->address == 0)
     {
         if (pObject->regionStart != 0xFFFFFFFF)
             MemorySim_CreateRegion(pObject->pMem, pObject->regionStart, pObject->regionSize);
-- 
2.43.0


From 653d4af6ba631dbd7902d9fe69fcc1150e4e356e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:44 +0000
Subject: [PATCH 10/19] fix: GDB log lines longer than 1023 characters

---
 libCrashDebug/src/GdbLogParser.c | 53 ++++++++++++++++++++++++++++----
 1 file changed, 47 insertions(+), 6 deletions(-)

diff --git a/libCrashDebug/src/GdbLogParser.c b/libCrashDebug/src/GdbLogParser.c
index d0e995e..1bbc145 100644
--- a/libCrashDebug/src/GdbLogParser.c
+++ b/libCrashDebug/src/GdbLogParser.c
@@ -15,6 +15,7 @@
 #include <ctype.h>
 #include <GdbLogParser.h>
 #include <FileFailureInject.h>
+#include <MallocFailureInject.h>
 #include <stddef.h>
 #include <stdio.h>
 #include <string.h>
@@ -26,7 +27,8 @@ typedef struct ParseObject
     uint32_t         regionStart;
     uint32_t         regionSize;
     uint32_t         nextExpectedAddress;
-    char             lineText[1024];
+    char*            pLineText;
+    size_t           lineTextSize;
 } ParseObject;
 
 typedef enum ParseType
@@ -67,6 +69,8 @@ static void parseLines(IMemory* pMem,
                        RegisterContext* pContext,
                        FILE* pLogFile,
                        void (*passHandler)(ParseObject*, const ParseResults*));
+static int readLine(ParseObject* pObject, FILE* pLogFile);
+static void growLineText(ParseObject* pObject);
 static ParseResults parseLine(const char* pLine);
 static int isMemoryLine(const char* pLine);
 static int is8DigitHexValue(const char* pLine);
@@ -185,14 +189,51 @@ static void parseLines(IMemory* pMem,
     object.regionStart = 0xFFFFFFFF;
     object.regionSize = 0;
     object.nextExpectedAddress = 0xFFFFFFFF;
+    object.pLineText = NULL;
+    object.lineTextSize = 0;
 
-    while (NULL != fgets(object.lineText, sizeof(object.lineText), pLogFile))
+    __try
+    {
+        while (readLine(&object, pLogFile))
+        {
+            ParseResults parseResults = parseLine(object.pLineText);
+            passHandler(&object, &parseResults);
+        }
+        if (object.regionSize != 0)
+            MemorySim_CreateRegion(object.pMem, object.regionStart, object.regionSize);
+        free(object.pLineText);
+    }
+    __catch
     {
-        ParseResults parseResults = parseLine(object.lineText);
-        passHandler(&object, &parseResults);
+        free(object.pLineText);
+        __rethrow;
     }
-    if (object.regionSize != 0)
-        MemorySim_CreateRegion(object.pMem, object.regionStart, object.regionSize);
+}
+
+static int readLine(ParseObject* pObject, FILE* pLogFile)
+{
+    size_t length = 0;
+
+    // Lines with long symbol names don't have a maximum length.
+    do
+    {
+        if (pObject->lineTextSize - length < 2)
+            growLineText(pObject);
+        if (NULL == fgets(pObject->pLineText + length, pObject->lineTextSize - length, pLogFile))
+            return length > 0;
+        length += strlen(pObject->pLineText + length);
+    } while (length == pObject->lineTextSize - 1 && pObject->pLineText[length - 1] != '\n');
+    return TRUE;
+}
+
+static void growLineText(ParseObject* pObject)
+{
+    size_t newSize = pObject->lineTextSize ? pObject->lineTextSize * 2 : 1024;
+    char*  pRealloc = realloc(pObject->pLineText, newSize);
+    if (!pRealloc)
+        __throw(outOfMemoryException);
+    pObject->pLineText = pRealloc;
+    pObject->lineTextSize = newSize;
 }
 
 static ParseResults parseLine(const char* pLine)
-- 
2.43.0


From 24e8a39e39cd1df415a07d409322490790b27403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:13 +0000
Subject: [PATCH 11/19] fix: Endless loop once GDB closes its end of stdin

---
 main/MockDefaults.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main/MockDefaults.c b/main/MockDefaults.c
index c5a29df..22338b1 100644
--- a/main/MockDefaults.c
+++ b/main/MockDefaults.c
@@ -108,7 +108,7 @@ int Console_ReadStdIn()
     char    c = 0;
 
     result = read(STDIN_FILENO, &c, sizeof(c));
-    if (result == -1)
+    if (result != sizeof(c))
         __throw(fileException);
     return c;
 }
-- 
2.43.0


From 5d939eabca00b78a926b590b1330fd7f81b92752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:53 +0000
Subject: [PATCH 12/19] fix: Memory allocated for an alias larger than the
 region it points at

The size of an alias is clipped to the end of its target, but the requested
size was still allocated: '--alias' with a generous size needed that much
memory or failed.
---
 libCrashDebug/src/MemorySim.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libCrashDebug/src/MemorySim.c b/libCrashDebug/src/MemorySim.c
index 8bf4755..ae7d603 100644
--- a/libCrashDebug/src/MemorySim.c
+++ b/libCrashDebug/src/MemorySim.c
@@ -225,7 +225,7 @@ void MemorySim_CreateAlias(IMemory* pMemory, uint32_t aliasAddress, uint32_t red
         else
             pRegion->size = size;
         pRegion->pRedirect = pRedirect;
-        pRegion->pData = throwingZeroedMalloc(size);
+        pRegion->pData = throwingZeroedMalloc(pRegion->size);
         pRegion->isAlias = 1;
         pRegion->isReadOnly = pRedirect->isReadOnly;
         addRegionToTail(pThis, pRegion);
-- 
2.43.0


From 4a431250e206e2d3cbe454c96ce65ca9acb515aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:53 +0000
Subject: [PATCH 13/19] fix: Read errors of the crash dump file taken for its
 end

A dump which couldn't be read (a directory for example) started a session
without any memory or registers instead of failing.
---
 libCrashDebug/src/CrashCatcherDump.c      | 2 ++
 libCrashDebug/src/CrashDebugCommandLine.c | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/libCrashDebug/src/CrashCatcherDump.c b/libCrashDebug/src/CrashCatcherDump.c
index 0797b30..1795780 100644
--- a/libCrashDebug/src/CrashCatcherDump.c
+++ b/libCrashDebug/src/CrashCatcherDump.c
@@ -190,6 +190,8 @@ static int readNextMemoryRegion(Object* pObject)
     bytesRead = pObject->read(pObject, &regionOrSentinel, sizeof(regionOrSentinel));
     if (isStackOverflowSentinelInsteadOfRegionDescription(bytesRead, &regionOrSentinel))
         __throw_msg(stackOverflowException, "The dump file ended with an indication that CrashCatcher detected a stack overflow.");
+    else if (bytesRead == 0 && ferror(pObject->pFile))
+        __throw_msg(fileException, "Failed to read the next memory region from the dump file.");
     else if (bytesRead == 0)
         return TRUE;
     else if (bytesRead != sizeof(regionOrSentinel.region))
diff --git a/libCrashDebug/src/CrashDebugCommandLine.c b/libCrashDebug/src/CrashDebugCommandLine.c
index 87a74a6..f644448 100644
--- a/libCrashDebug/src/CrashDebugCommandLine.c
+++ b/libCrashDebug/src/CrashDebugCommandLine.c
@@ -334,7 +334,10 @@ static DumpFileType getFileType(const char* pDumpFilename)
     if (!pFile)
         __throw_msg(fileException, "Failed to open \"%s\".", pDumpFilename);
     fread(fileHeader, 1, sizeof(fileHeader), pFile);
+    int readFailed = ferror(pFile);
     fclose(pFile);
+    if (readFailed)
+        __throw_msg(fileException, "Failed to read \"%s\".", pDumpFilename);
 
     if (hasBinaryCrashCatcherSignature(fileHeader))
         return CRASH_CATCHER_BIN;
-- 
2.43.0


From 602ac60ddf9a7372522a193ade780b4b2c7bc96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:53 +0000
Subject: [PATCH 14/19] fix: Images of 4GB and more truncated to their size
 modulo 4GB

---
 libCrashDebug/src/CrashDebugCommandLine.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libCrashDebug/src/CrashDebugCommandLine.c b/libCrashDebug/src/CrashDebugCommandLine.c
index f644448..d022b85 100644
--- a/libCrashDebug/src/CrashDebugCommandLine.c
+++ b/libCrashDebug/src/CrashDebugCommandLine.c
@@ -300,6 +300,8 @@ static void loadBinFile(CrashDebugCommandLine* pThis, volatile FileData* pFileDa
 {
     __try
     {
+        if ((uint32_t)pFileData->dataSize != (unsigned long)pFileData->dataSize)
+            __throw(invalidArgumentException);
         MemorySim_CreateRegion(pThis->pMemory, pThis->baseAddress, pFileData->dataSize);
         MemorySim_LoadFromFlashImage(pThis->pMemory, pThis->baseAddress, pFileData->pData, pFileData->dataSize);
         MemorySim_MakeRegionReadOnly(pThis->pMemory, pThis->baseAddress);
-- 
2.43.0


From 940d522062aec2e3b2c8e45e85dd2659ad9d794f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:56 +0000
Subject: [PATCH 15/19] fix: Exception number field of the exception PSR is 9
 bits wide

A dump taken in interrupt handler 256+n was reported as exception n: for
example as a hard fault instead of external interrupt 243.
---
 libCrashDebug/src/mriPlatform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libCrashDebug/src/mriPlatform.c b/libCrashDebug/src/mriPlatform.c
index 8b0ce10..fa5963a 100644
--- a/libCrashDebug/src/mriPlatform.c
+++ b/libCrashDebug/src/mriPlatform.c
@@ -349,7 +349,7 @@ uint8_t Platform_DetermineCauseOfException(void)
 
 static uint32_t getCurrentlyExecutingExceptionNumber(void)
 {
-    return (g_pContext->exceptionPSR & 0xFF);
+    return (g_pContext->exceptionPSR & 0x1FF);
 }
 
 void Platform_DisplayFaultCauseToGdbConsole(void)
-- 
2.43.0


From 605a2c3a69e7911ac91766315068746ea42aad88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:50 +0000
Subject: [PATCH 16/19] fix: Don't wait forever for GDB when stdin can't be
 polled

With stdin closed, select() fails with EBADF. isGdbConnected() reported that
as just not being connected yet, so the wait for GDB to connect never ended.
---
 libCrashDebug/src/StandardIComm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libCrashDebug/src/StandardIComm.c b/libCrashDebug/src/StandardIComm.c
index da99371..a552d76 100644
--- a/libCrashDebug/src/StandardIComm.c
+++ b/libCrashDebug/src/StandardIComm.c
@@ -87,6 +87,7 @@ static int shouldStopRun(IComm* pComm)
 static int  isGdbConnected(IComm* pComm)
 {
     StandardIComm* pThis = (StandardIComm*)pComm;
-    return pThis->hasGdbConnected || hasReceiveData(pComm);
+    /* A console that can't be polled will never connect so let the exception through rather than being waited on forever. */
+    return pThis->hasGdbConnected || Console_HasStdInDataToRead();
 }
 
-- 
2.43.0


From 652caadd8a781adf5cb1f08ec972022a440c6fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:47 +0000
Subject: [PATCH 17/19] fix: fseekRestore() left the count of calls to pass
 behind

The next fseekSetReturn() then let that many calls succeed even though it
wasn't asked to let any of them pass.
---
 libmocks/src/FileFailureInject.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libmocks/src/FileFailureInject.c b/libmocks/src/FileFailureInject.c
index 491aa35..3968ac8 100644
--- a/libmocks/src/FileFailureInject.c
+++ b/libmocks/src/FileFailureInject.c
@@ -107,6 +107,7 @@ void fseekSetCallsBeforeFailure(int callCountToAllowBeforeFailing)
 void fseekRestore(void)
 {
     hook_fseek = fseek;
+    g_fseekCallsToPass = 0;
 }
 
 
-- 
2.43.0


From 55d925dcd0caaca22c81e6ea9f85f412ef66fbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:20 +0000
Subject: [PATCH 18/19] fix: GDB log memory lines with symbols that contain
 operator names

---
 libCrashDebug/src/GdbLogParser.c | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/libCrashDebug/src/GdbLogParser.c b/libCrashDebug/src/GdbLogParser.c
index 1bbc145..7c06732 100644
--- a/libCrashDebug/src/GdbLogParser.c
+++ b/libCrashDebug/src/GdbLogParser.c
@@ -82,6 +82,7 @@ static const char* skipWhitespaceSymbolsAndParseNextValue(ParseResults* pResults
 static const char* skipWhitespaceAndSymbol(const char* pLine);
 static const char* skipWhitespace(const char* pLine);
 static const char* skipSymbol(const char* pLine);
+static size_t operatorNameLength(const char* pLine, const char* pStart);
 static const char* parseValue(ParseResults* pResults, const char* pLine);
 static int isRegisterLine(const char* pLine, size_t* pRegisterOffset);
 static ParseResults parseRegisterLine(const char* pLine, size_t registerOffset);
@@ -324,12 +325,15 @@ static const char* skipWhitespace(const char* pLine)
 
 static const char* skipSymbol(const char* pLine)
 {
-    int nestingLevel = 0;
+    const char* pStart = pLine;
+    int         nestingLevel = 0;
 
     if (*pLine != '<')
         return pLine;
     while (*pLine)
     {
+        // The brackets in the name of an operator such as operator<< or operator-> aren't nested ones.
+        pLine += operatorNameLength(pLine, pStart);
         if (*pLine == '<')
             nestingLevel++;
         else if (*pLine == '>')
@@ -342,6 +346,27 @@ static const char* skipSymbol(const char* pLine)
 
 }
 
+static size_t operatorNameLength(const char* pLine, const char* pStart)
+{
+    static const char        keyword[] = "operator";
+    static const size_t      keywordLength = sizeof(keyword) - 1;
+    static const char* const names[] = { "<=>", "<<=", ">>=", "->*", "<<", ">>", "<=", ">=", "->", "<", ">" };
+    size_t                   i;
+
+    if (strncmp(pLine, keyword, keywordLength) != 0 || (pLine > pStart && (isalnum(pLine[-1]) || pLine[-1] == '_')))
+        return 0;
+    for (i = 0 ; i < ARRAY_SIZE(names) ; i++)
+    {
+        size_t      length = strlen(names[i]);
+        const char* pNext = pLine + keywordLength + length;
+
+        // Parameters or template arguments follow the name.
+        if (strncmp(pLine + keywordLength, names[i], length) == 0)
+            return (*pNext == '(' || *pNext == '<' || strncmp(pNext, " <", 2) == 0) ? pNext - pLine : 0;
+    }
+    return 0;
+}
+
 static const char* parseValue(ParseResults* pResults, const char* pLine)
 {
     char*    pNext = NULL;
-- 
2.43.0


From d2f5eebda4ac5eeae0ef88124e114735aa52c83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:48 +0000
Subject: [PATCH 19/19] fix: GDB log memory lines with less than 8 address
 digits

---
 libCrashDebug/src/GdbLogParser.c | 36 ++++++++++++++++----------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/libCrashDebug/src/GdbLogParser.c b/libCrashDebug/src/GdbLogParser.c
index 7c06732..6a2c4c8 100644
--- a/libCrashDebug/src/GdbLogParser.c
+++ b/libCrashDebug/src/GdbLogParser.c
@@ -73,7 +73,7 @@ static int readLine(ParseObject* pObject, FILE* pLogFile);
 static void growLineText(ParseObject* pObject);
 static ParseResults parseLine(const char* pLine);
 static int isMemoryLine(const char* pLine);
-static int is8DigitHexValue(const char* pLine);
+static size_t lengthOfHexAddress(const char* pLine);
 static int isHexDigit(char c);
 static ParseResults parseMemoryLine(const char* pLine);
 static const char* parseAddress(ParseResults* pResults, const char* pLine);
@@ -250,22 +250,21 @@ static ParseResults parseLine(const char* pLine)
 
 static int isMemoryLine(const char* pLine)
 {
-    return (strlen(pLine) > 11 && is8DigitHexValue(pLine) &&
-            (pLine[10] == ':' || (pLine[10] == ' ' && pLine[11] == '<')));
+    size_t length = lengthOfHexAddress(pLine);
+    return (length > 0 &&
+            ((pLine[length] == ':' && isspace(pLine[length + 1])) || (pLine[length] == ' ' && pLine[length + 1] == '<')));
 }
 
-static int is8DigitHexValue(const char* pLine)
-{
-    return (pLine[0] == '0' &&
-            pLine[1] == 'x' &&
-            isHexDigit(pLine[2]) &&
-            isHexDigit(pLine[3]) &&
-            isHexDigit(pLine[4]) &&
-            isHexDigit(pLine[5]) &&
-            isHexDigit(pLine[6]) &&
-            isHexDigit(pLine[7]) &&
-            isHexDigit(pLine[8]) &&
-            isHexDigit(pLine[9]));
+// GDB doesn't pad addresses with zeroes to 8 digits so an address has up to 8 of them.
+static size_t lengthOfHexAddress(const char* pLine)
+{
+    size_t length = 2;
+
+    if (pLine[0] != '0' || pLine[1] != 'x')
+        return 0;
+    while (isHexDigit(pLine[length]))
+        length++;
+    return (length > 2 && length <= 2 + 8) ? length : 0;
 }
 
 static int isHexDigit(char c)
@@ -291,9 +290,10 @@ static ParseResults parseMemoryLine(const char* pLine)
 
 static const char* parseAddress(ParseResults* pResults, const char* pLine)
 {
-    pResults->address = strtoul(pLine, NULL, 0);
-    // Skip 0xXXXXXXXX: address formatted string.
-    return pLine + (2 + 8 + 1);
+    char* pEnd = NULL;
+    pResults->address = strtoul(pLine, &pEnd, 0);
+    // Skip the ':' or ' ' which follows the address.
+    return pEnd + 1;
 }
 
 static int areMoreValuesToParseOnLine(const ParseResults* pResults, const char* pLine)
-- 
2.43.0

