From 11834f67d30ac0e4a700866719757b808ed06285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:34 +0000
Subject: [PATCH 01/57] fix: named object re-creation overran its mapping and
 released its lock before the object was rebuilt

---
 sync/sync_util.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sync/sync_util.cpp b/sync/sync_util.cpp
index 7599368..3903dc9 100644
--- a/sync/sync_util.cpp
+++ b/sync/sync_util.cpp
@@ -280,14 +280,15 @@ namespace CubicleSoft
 							else
 							{
 								// If this is the first reference, reset the RAM to 0's for platform consistency to force a rebuild of the object.
-								memset(MemPtr, 0, Size);
+								memset(MemPtr, 0, Size - StartPos);
 
 								Result = 0;
 							}
 
 							RefCountPtr[0]++;
 
-							pthread_mutex_unlock(MutexPtr);
+							// When the object has to be rebuilt, the caller finishes initialization and then calls UnixNamedMemReady().
+							if (Result == 1)  pthread_mutex_unlock(MutexPtr);
 						}
 
 						close(fp);
-- 
2.43.0


From c31244e3b3eb77a6ef4801e6aba43fcae0abf033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:34 +0000
Subject: [PATCH 02/57] fix: semaphore wait kept its internal lock when the
 clock could not be read

---
 sync/sync_util.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sync/sync_util.cpp b/sync/sync_util.cpp
index 3903dc9..f2f3055 100644
--- a/sync/sync_util.cpp
+++ b/sync/sync_util.cpp
@@ -412,7 +412,13 @@ namespace CubicleSoft
 			{
 				struct timespec TempTime;
 
-				if (CSGX__ClockGetTimeRealtime(&TempTime) == -1)  return false;
+				if (CSGX__ClockGetTimeRealtime(&TempTime) == -1)
+				{
+					pthread_mutex_unlock(UnixSemaphore.MxMutex);
+
+					return false;
+				}
+
 				TempTime.tv_sec += Wait / 1000;
 				TempTime.tv_nsec += (Wait % 1000) * 1000000;
 				TempTime.tv_sec += TempTime.tv_nsec / 1000000000;
-- 
2.43.0


From bcd9ff70e79f36bb80dc073e77cb826cd95d06dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:34 +0000
Subject: [PATCH 03/57] fix: a timed out auto event wait could strand the
 signal and leave another waiter blocked forever

---
 sync/sync_util.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sync/sync_util.cpp b/sync/sync_util.cpp
index f2f3055..6b3856c 100644
--- a/sync/sync_util.cpp
+++ b/sync/sync_util.cpp
@@ -587,7 +587,8 @@ namespace CubicleSoft
 
 				UnixEvent.MxWaiting[0]--;
 
-				if (Result2 == 0)
+				// An event that was fired between the timeout and now still has to be consumed or other waiters could be left waiting on it.
+				if (Result2 == 0 || UnixEvent.MxSignaled[0] != '\x00')
 				{
 					// Reset auto events.
 					if (UnixEvent.MxManual[0] == '\x00')  UnixEvent.MxSignaled[0] = '\x00';
-- 
2.43.0


From 7c4861659f753db1736a31ab8eb0a277a74197a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:40 +0000
Subject: [PATCH 04/57] fix: recreating a mutex left the named object locked
 forever and leaked the previous object

---
 sync/sync_mutex.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/sync/sync_mutex.cpp b/sync/sync_mutex.cpp
index ee4873f..b9e167b 100644
--- a/sync/sync_mutex.cpp
+++ b/sync/sync_mutex.cpp
@@ -157,16 +157,9 @@ namespace CubicleSoft
 			{
 				if (MxOwnerID == Util::GetCurrentThreadID())
 				{
-					if (MxNamed)  Util::UnmapUnixNamedMem(MxMem, Util::GetUnixSemaphoreSize());
-					else
-					{
-						Util::FreeUnixSemaphore(MxPthreadMutex);
+					// Release the mutex for other users of the same named object.
+					Util::ReleaseUnixSemaphore(MxPthreadMutex, NULL);
 
-						delete[] MxMem;
-					}
-
-					MxNamed = false;
-					MxMem = NULL;
 					MxCount = 0;
 					MxOwnerID = 0;
 				}
@@ -178,6 +171,20 @@ namespace CubicleSoft
 				}
 			}
 
+			if (MxMem != NULL)
+			{
+				if (MxNamed)  Util::UnmapUnixNamedMem(MxMem, Util::GetUnixSemaphoreSize());
+				else
+				{
+					Util::FreeUnixSemaphore(MxPthreadMutex);
+
+					delete[] MxMem;
+				}
+
+				MxNamed = false;
+				MxMem = NULL;
+			}
+
 			size_t Pos, TempSize = Util::GetUnixSemaphoreSize();
 			MxNamed = (Name != NULL);
 			int Result = Util::InitUnixNamedMem(MxMem, Pos, "/Sync_Mutex", Name, TempSize);
-- 
2.43.0


From cd693e7c1151116c982c911b11b2baade6a818a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:40 +0000
Subject: [PATCH 05/57] fix: locking a mutex that was never created
 dereferenced an uninitialised pointer

---
 sync/sync_mutex.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sync/sync_mutex.cpp b/sync/sync_mutex.cpp
index b9e167b..362b8b9 100644
--- a/sync/sync_mutex.cpp
+++ b/sync/sync_mutex.cpp
@@ -215,6 +215,14 @@ namespace CubicleSoft
 		{
 			if (pthread_mutex_lock(&MxPthreadCritSection) != 0)  return false;
 
+			// Make sure the mutex exists.
+			if (MxMem == NULL)
+			{
+				pthread_mutex_unlock(&MxPthreadCritSection);
+
+				return false;
+			}
+
 			// Check to see if this mutex is already owned by the calling thread.
 			if (MxOwnerID == Util::GetCurrentThreadID())
 			{
-- 
2.43.0


From 396a8f3cf099519fefe6640062fae60c34ea5819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:58 +0000
Subject: [PATCH 06/57] fix: reader/writer lock measured elapsed time in
 seconds instead of milliseconds

---
 sync/sync_readwritelock.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/sync/sync_readwritelock.cpp b/sync/sync_readwritelock.cpp
index a759d8f..65206cc 100644
--- a/sync/sync_readwritelock.cpp
+++ b/sync/sync_readwritelock.cpp
@@ -72,14 +72,14 @@ namespace CubicleSoft
 			if (MxWinRSemaphore == NULL || MxWinRSemMutex == NULL || MxWinRWaitEvent == NULL || MxWinWWaitMutex == NULL)  return false;
 
 			// Get current time in milliseconds.
-			StartTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			StartTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 
 			// Acquire the write lock mutex.  Guarantees that readers can't starve the writer.
 			DWORD Result = ::WaitForSingleObject(MxWinWWaitMutex, Wait);
 			if (Result != WAIT_OBJECT_0)  return false;
 
 			// Acquire the semaphore mutex.
-			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 			if (Wait < CurrTime - StartTime || ::WaitForSingleObject(MxWinRSemMutex, Wait - (DWORD)(CurrTime - StartTime)) != WAIT_OBJECT_0)
 			{
 				::ReleaseSemaphore(MxWinWWaitMutex, 1, NULL);
@@ -88,7 +88,7 @@ namespace CubicleSoft
 			}
 
 			// Acquire the semaphore.
-			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 			if (Wait < CurrTime - StartTime || ::WaitForSingleObject(MxWinRSemaphore, Wait - (DWORD)(CurrTime - StartTime)) != WAIT_OBJECT_0)
 			{
 				::ReleaseSemaphore(MxWinRSemMutex, 1, NULL);
@@ -121,14 +121,14 @@ namespace CubicleSoft
 			if (MxWinRWaitEvent == NULL || MxWinWWaitMutex == NULL)  return false;
 
 			// Get current time in milliseconds.
-			StartTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			StartTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 
 			// Acquire the write lock mutex.
 			DWORD Result = ::WaitForSingleObject(MxWinWWaitMutex, Wait);
 			if (Result != WAIT_OBJECT_0)  return false;
 
 			// Wait for readers to reach zero.
-			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 			if (Wait < CurrTime - StartTime || ::WaitForSingleObject(MxWinRWaitEvent, Wait - (DWORD)(CurrTime - StartTime)) != WAIT_OBJECT_0)
 			{
 				::ReleaseSemaphore(MxWinWWaitMutex, 1, NULL);
@@ -262,13 +262,13 @@ namespace CubicleSoft
 			if (MxMem == NULL)  return false;
 
 			// Get current time in milliseconds.
-			StartTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			StartTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 
 			// Acquire the write lock mutex.  Guarantees that readers can't starve the writer.
 			if (!Util::WaitForUnixSemaphore(MxPthreadWWaitMutex, Wait))  return false;
 
 			// Acquire the counter mutex.
-			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 			if (Wait < CurrTime - StartTime || !Util::WaitForUnixSemaphore(MxPthreadRCountMutex, Wait - (CurrTime - StartTime)))
 			{
 				Util::ReleaseUnixSemaphore(MxPthreadWWaitMutex, NULL);
@@ -302,13 +302,13 @@ namespace CubicleSoft
 			if (MxMem == NULL)  return false;
 
 			// Get current time in milliseconds.
-			StartTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			StartTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 
 			// Acquire the write lock mutex.
 			if (!Util::WaitForUnixSemaphore(MxPthreadWWaitMutex, Wait))  return false;
 
 			// Wait for readers to reach zero.
-			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 			if (Wait < CurrTime - StartTime || !Util::WaitForUnixEvent(MxPthreadRWaitEvent, Wait - (CurrTime - StartTime)))
 			{
 				Util::ReleaseUnixSemaphore(MxPthreadWWaitMutex, NULL);
-- 
2.43.0


From 4bdf88f049c4d9b6e0be3fb8944267be87ff637d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:58 +0000
Subject: [PATCH 07/57] fix: shared memory still reported being first after
 reopening an existing region

---
 sync/sync_sharedmem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sync/sync_sharedmem.cpp b/sync/sync_sharedmem.cpp
index fdfa1c2..a557dbe 100644
--- a/sync/sync_sharedmem.cpp
+++ b/sync/sync_sharedmem.cpp
@@ -87,6 +87,7 @@ namespace CubicleSoft
 
 			MxMemInternal = NULL;
 			MxMem = NULL;
+			MxFirst = false;
 
 			size_t Pos, TempSize = Size;
 			int Result = Util::InitUnixNamedMem(MxMemInternal, Pos, "/Sync_SharedMem", Name, TempSize);
-- 
2.43.0


From 8dcc870b13ce6f31da03a183bfe19e24698f2516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:26 +0000
Subject: [PATCH 08/57] fix: growing a large thread local allocation did not
 record its new size so duplicating it lost data

---
 sync/sync_tls.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index a484111..9d9fd41 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -124,7 +124,11 @@ namespace CubicleSoft
 			if (MainPtr->GetSize() <= Pos && MainPtr->GetSize() <= Pos2)
 			{
 				Data2 = ::realloc(((std::uint8_t *)Data) - 1, 1 + NewSize);
+				if (Data2 == NULL)  return NULL;
 				Data2 = (std::uint8_t *)Data2 + 1;
+
+				// Store the new position.
+				((std::uint8_t *)Data2)[-1] = (std::uint8_t)Pos;
 			}
 			else
 			{
@@ -132,7 +136,7 @@ namespace CubicleSoft
 				Data2 = malloc(NewSize);
 
 				// Copy the data.
-				memcpy(Data2, Data, (1 << Pos2));
+				memcpy(Data2, Data, ((size_t)1 << Pos2));
 
 				// Free the previous object.
 				free(Data, Cache);
@@ -146,7 +150,7 @@ namespace CubicleSoft
 			if (Data == NULL)  return NULL;
 
 			// Allocate the appropriate size buffer.
-			size_t Size = (size_t)(1 << ((size_t)((std::uint8_t *)Data)[-1]));
+			size_t Size = ((size_t)1 << ((size_t)((std::uint8_t *)Data)[-1]));
 			void *Data2 = ::malloc(Size);
 			if (Data2 == NULL)  return NULL;
 
-- 
2.43.0


From 2b2a87ad0429a9e5f5b000c4b9cca3869be8f2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:26 +0000
Subject: [PATCH 09/57] fix: copying a TLS MixedVar freed an uninitialised
 pointer or used the wrong allocator

---
 sync/sync_tls.cpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index 9d9fd41..9cd0670 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -261,16 +261,11 @@ namespace CubicleSoft
 		}
 
 		// Copy constructor.
-		TLS::MixedVar::MixedVar(const TLS::MixedVar &TempVar)
+		TLS::MixedVar::MixedVar(const TLS::MixedVar &TempVar) : MxStr(NULL), MxStrPos(0)
 		{
 			MxTLS = TempVar.MxTLS;
 
 			if (TempVar.MxStr != NULL)  SetData(TempVar.MxStr, TempVar.MxStrPos);
-			else
-			{
-				MxStr = NULL;
-				MxStrPos = 0;
-			}
 
 			MxMode = TempVar.MxMode;
 			MxInt = TempVar.MxInt;
@@ -282,16 +277,14 @@ namespace CubicleSoft
 		{
 			if (this != &TempVar)
 			{
+				// Release the old string with the allocator it came from.
+				if (MxStr != NULL)  MxTLS->free(MxStr);
+				MxStr = NULL;
+				MxStrPos = 0;
+
 				MxTLS = TempVar.MxTLS;
 
 				if (TempVar.MxStr != NULL)  SetData(TempVar.MxStr, TempVar.MxStrPos);
-				else
-				{
-					MxTLS->free(MxStr);
-
-					MxStr = NULL;
-					MxStrPos = 0;
-				}
 
 				MxMode = TempVar.MxMode;
 				MxInt = TempVar.MxInt;
-- 
2.43.0


From 8bd58083f35d3efc44ffb05b8c86e45cdac4ea31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:26 +0000
Subject: [PATCH 10/57] fix: resizing or replacing in an empty TLS MixedVar
 dereferenced NULL

---
 sync/sync_tls.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index 9cd0670..a9ca2f2 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -402,7 +402,7 @@ namespace CubicleSoft
 
 		void TLS::MixedVar::SetSize(size_t pos)
 		{
-			if (MxStrPos < pos)  MxStr = (char *)MxTLS->realloc(MxStr, pos + 1);
+			if (MxStrPos < pos || MxStr == NULL)  MxStr = (char *)MxTLS->realloc(MxStr, pos + 1);
 
 			MxStrPos = pos;
 			MxStr[MxStrPos] = '\0';
@@ -412,6 +412,8 @@ namespace CubicleSoft
 		{
 			size_t Num;
 
+			if (MxStr == NULL)  return 0;
+
 			if (srcsize < destsize)
 			{
 				char *Result;
-- 
2.43.0


From 8a9cf8d99571fa5a5a29a6dd700b7fadb902222f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:12 +0000
Subject: [PATCH 11/57] fix: copies of an ordered hash could not find their own
 keys and had a dangling first node link

---
 templates/detachable_ordered_hash_util.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/templates/detachable_ordered_hash_util.h b/templates/detachable_ordered_hash_util.h
index 48d6cc6..f3ee210 100644
--- a/templates/detachable_ordered_hash_util.h
+++ b/templates/detachable_ordered_hash_util.h
@@ -77,6 +77,7 @@ public:
 			// Attach each cloned node to the end of the list.
 			Node2 = new OrderedHashNode<T>(*Node);
 			Node2->NextListNode = NULL;
+			Node2->PrevListNode = NULL;
 
 			if (FirstListNode == NULL)  FirstListNode = Node2;
 			else
@@ -92,6 +93,7 @@ public:
 			x = (size_t)(Node2->HashKey % HashSize);
 			Node2->NextHashNode = HashNodes[x];
 			if (HashNodes[x] != NULL)  HashNodes[x]->PrevHashNode = Node2;
+			HashNodes[x] = Node2;
 
 			Node = Node->NextListNode;
 		}
@@ -132,6 +134,7 @@ public:
 				// Attach each cloned node to the end of the list.
 				Node2 = new OrderedHashNode<T>(*Node);
 				Node2->NextListNode = NULL;
+				Node2->PrevListNode = NULL;
 
 				if (FirstListNode == NULL)  FirstListNode = Node2;
 				else
@@ -147,6 +150,7 @@ public:
 				x = (size_t)(Node2->HashKey % HashSize);
 				Node2->NextHashNode = HashNodes[x];
 				if (HashNodes[x] != NULL)  HashNodes[x]->PrevHashNode = Node2;
+				HashNodes[x] = Node2;
 
 				Node = Node->NextListNode;
 			}
-- 
2.43.0


From 74254b784d7951f0029edec00770c12a585a60d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:12 +0000
Subject: [PATCH 12/57] fix: attaching a node that was released by emptying an
 ordered hash corrupted the list

---
 templates/detachable_ordered_hash_util.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/templates/detachable_ordered_hash_util.h b/templates/detachable_ordered_hash_util.h
index f3ee210..def5148 100644
--- a/templates/detachable_ordered_hash_util.h
+++ b/templates/detachable_ordered_hash_util.h
@@ -274,6 +274,7 @@ public:
 		// Insert into the list.
 		if (Next == NULL)
 		{
+			Node->NextListNode = NULL;
 			Node->PrevListNode = LastListNode;
 			if (LastListNode != NULL)  LastListNode->NextListNode = Node;
 			LastListNode = Node;
@@ -338,6 +339,7 @@ public:
 		// Insert into the list.
 		if (Prev == NULL)
 		{
+			Node->PrevListNode = NULL;
 			Node->NextListNode = FirstListNode;
 			if (FirstListNode != NULL)  FirstListNode->PrevListNode = Node;
 			FirstListNode = Node;
-- 
2.43.0


From 11b5f75e158b9e560002701dc7d12859bd71db71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:12 +0000
Subject: [PATCH 13/57] fix: an ordered hash with an estimated size of zero
 divided by zero

---
 templates/detachable_ordered_hash_util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/detachable_ordered_hash_util.h b/templates/detachable_ordered_hash_util.h
index def5148..2e2c23e 100644
--- a/templates/detachable_ordered_hash_util.h
+++ b/templates/detachable_ordered_hash_util.h
@@ -24,7 +24,7 @@ public:
 #endif
 		(size_t EstimatedSize = 23, std::uint64_t HashKey = 5381) : UseSipHash(false), Key1(HashKey), Key2(0), HashNodes(NULL), HashSize(0), NextPrimePos(0), FirstListNode(NULL), LastListNode(NULL), NumListNodes(0)
 	{
-		ResizeHash(EstimatedSize);
+		ResizeHash(EstimatedSize ? EstimatedSize : 1);
 	}
 
 	// Keys are securely hashed via SipHash-2-4.
@@ -36,7 +36,7 @@ public:
 #endif
 		(size_t EstimatedSize, std::uint64_t HashKey1, std::uint64_t HashKey2) : UseSipHash(true), Key1(HashKey1), Key2(HashKey2), HashNodes(NULL), HashSize(0), NextPrimePos(0), FirstListNode(NULL), LastListNode(NULL), NumListNodes(0)
 	{
-		ResizeHash(EstimatedSize);
+		ResizeHash(EstimatedSize ? EstimatedSize : 1);
 	}
 
 #ifdef CUBICLESOFT_DETACHABLE_ORDEREDHASH_NOCOPYASSIGN
-- 
2.43.0


From dd61bd53a4b8cf0188581753216c033cbb754afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:12 +0000
Subject: [PATCH 14/57] fix: assigning 2D arrays of a different size
 dereferenced NULL and comparing them did not compile

---
 templates/static_2d_array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/static_2d_array.h b/templates/static_2d_array.h
index 88f5685..6b01f96 100644
--- a/templates/static_2d_array.h
+++ b/templates/static_2d_array.h
@@ -53,7 +53,7 @@ namespace CubicleSoft
 					Height = TempArray.Height;
 
 					size_t y = Width * Height;
-					if (y)
+					if (!y)
 					{
 						baseptr = NULL;
 						ptr = NULL;
@@ -89,7 +89,7 @@ namespace CubicleSoft
 			if (Width != TempArray.Width || Height != TempArray.Height)  return false;
 
 			size_t x, y = Width * Height;
-			for (x = 0; x < y && baseptr[x] == TempArray.ptr[x]; x++);
+			for (x = 0; x < y && baseptr[x] == TempArray.baseptr[x]; x++);
 			if (x < y)  return false;
 
 			return true;
-- 
2.43.0


From 38d2fcf596190f1727c950ac15771015fdacb35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:12 +0000
Subject: [PATCH 15/57] fix: copying a packed ordered hash ran past the end of
 the source

---
 templates/packed_ordered_hash_util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/packed_ordered_hash_util.h b/templates/packed_ordered_hash_util.h
index 56f6bbf..2b401dc 100644
--- a/templates/packed_ordered_hash_util.h
+++ b/templates/packed_ordered_hash_util.h
@@ -84,7 +84,7 @@ public:
 		memcpy(HashNodes, TempHash.HashNodes, sizeof(std::uint32_t) * NumNodes);
 		NumUsed = TempHash.NumUsed;
 
-		PackedOrderedHashNode<T> *Node = TempHash.ArrayNodes, *Node2 = ArrayNodes, *LastNode = ArrayNodes + NextNodePos;
+		PackedOrderedHashNode<T> *Node = TempHash.ArrayNodes, *Node2 = ArrayNodes, *LastNode = TempHash.ArrayNodes + NextNodePos;
 
 		while (Node != LastNode)
 		{
@@ -147,7 +147,7 @@ public:
 
 			Node = TempHash.ArrayNodes;
 			Node2 = ArrayNodes;
-			LastNode = ArrayNodes + NextNodePos;
+			LastNode = TempHash.ArrayNodes + NextNodePos;
 
 			while (Node != LastNode)
 			{
-- 
2.43.0


From b61dd8d1ed22a23bfeb711e21e41d7a0c7b254f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:12 +0000
Subject: [PATCH 16/57] fix: resizing a packed ordered hash leaked the previous
 array

---
 templates/packed_ordered_hash_util.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/templates/packed_ordered_hash_util.h b/templates/packed_ordered_hash_util.h
index 2b401dc..2ff4fa2 100644
--- a/templates/packed_ordered_hash_util.h
+++ b/templates/packed_ordered_hash_util.h
@@ -512,6 +512,8 @@ private:
 			}
 		}
 
+		delete[] (char *)ArrayNodes;
+
 		ArrayNodes = ArrayNodes2;
 		HashNodes = HashNodes2;
 		NumNodes = NewHashSize;
-- 
2.43.0


From 133e47c0423a3ff12f389be1d5591fa491cd34b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:02 +0000
Subject: [PATCH 17/57] fix: growing a replacement result read past the end of
 the old buffer

---
 templates/fast_find_replace_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/fast_find_replace_util.h b/templates/fast_find_replace_util.h
index d0c8857..144146d 100644
--- a/templates/fast_find_replace_util.h
+++ b/templates/fast_find_replace_util.h
@@ -563,7 +563,7 @@ public:
 				MxData = reinterpret_cast<T *>(AllocType::realloc(MxAltMallocManager, MxData, (NewSize + MxExtraAlloc) * sizeof(T)));
 #else
 				T *NewData = reinterpret_cast<T *>(new char[(NewSize + MxExtraAlloc) * sizeof(T)]);
-				memcpy(NewData, MxData, NewSize * sizeof(T));
+				memcpy(NewData, MxData, MxDataPos * sizeof(T));
 				delete[] reinterpret_cast<char *>(MxData);
 
 				MxData = NewData;
-- 
2.43.0


From 6ea4bdb222c154c0d4ce123aab8a1c4313a4a831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:02 +0000
Subject: [PATCH 18/57] fix: in-place replacement copied between overlapping
 buffers with memcpy

---
 templates/fast_find_replace_util.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/templates/fast_find_replace_util.h b/templates/fast_find_replace_util.h
index 144146d..b90f4ea 100644
--- a/templates/fast_find_replace_util.h
+++ b/templates/fast_find_replace_util.h
@@ -587,7 +587,8 @@ public:
 
 		if (SrcDist)
 		{
-			memcpy(MxData + MxDataPos, MxSrcCurr, SrcDist * sizeof(T));
+			// The source and result buffers may be the same when replacing in-place.
+			memmove(MxData + MxDataPos, MxSrcCurr, SrcDist * sizeof(T));
 			MxDataPos += SrcDist;
 		}
 
-- 
2.43.0


From 9dcf63ed1b23f74ffc996c81646bb0fdd3ca1ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:02 +0000
Subject: [PATCH 19/57] fix: replacing with a limit dropped the rest of the
 data

---
 templates/fast_find_replace_util.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/templates/fast_find_replace_util.h b/templates/fast_find_replace_util.h
index b90f4ea..c83d049 100644
--- a/templates/fast_find_replace_util.h
+++ b/templates/fast_find_replace_util.h
@@ -590,6 +590,7 @@ public:
 			// The source and result buffers may be the same when replacing in-place.
 			memmove(MxData + MxDataPos, MxSrcCurr, SrcDist * sizeof(T));
 			MxDataPos += SrcDist;
+			MxSrcCurr += SrcDist;
 		}
 
 		return NextPos;
@@ -715,11 +716,14 @@ public:
 		const T *Pos;
 		size_t Num = 0;
 #ifdef CUBICLESOFT_FAST_FIND_REPLACE_COMPAREFUNC
-		while ((Pos = TempReplace.FindNext(ElementsEqual)) != NULL && Num < Limit)
+		while ((Pos = TempReplace.FindNext(ElementsEqual)) != NULL)
 #else
-		while ((Pos = TempReplace.FindNext(UseMemcmp)) != NULL && Num < Limit)
+		while ((Pos = TempReplace.FindNext(UseMemcmp)) != NULL)
 #endif
 		{
+			// Matches beyond the limit are copied as-is.
+			if (Num >= Limit)  continue;
+
 			TempReplace.Replace(ReplaceWith, ReplaceWithSize);
 
 			Num++;
@@ -783,11 +787,14 @@ public:
 		const T *Pos;
 		size_t Num = 0;
 #ifdef CUBICLESOFT_FAST_FIND_REPLACE_COMPAREFUNC
-		while ((Pos = TempReplace.FindNext(ElementsEqual)) != NULL && Num < Limit)
+		while ((Pos = TempReplace.FindNext(ElementsEqual)) != NULL)
 #else
-		while ((Pos = TempReplace.FindNext(UseMemcmp)) != NULL && Num < Limit)
+		while ((Pos = TempReplace.FindNext(UseMemcmp)) != NULL)
 #endif
 		{
+			// Matches beyond the limit are copied as-is.
+			if (Num >= Limit)  continue;
+
 			TempReplace.Replace(ReplaceWith, ReplaceWithSize);
 
 			Num++;
-- 
2.43.0


From 6fa335ba0ce07f59e6d7140bc29eaab689404c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:02 +0000
Subject: [PATCH 20/57] fix: prepending to a new StaticMixedVar left the string
 unterminated

---
 templates/static_mixed_var.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/templates/static_mixed_var.h b/templates/static_mixed_var.h
index d1d060c..b97519b 100644
--- a/templates/static_mixed_var.h
+++ b/templates/static_mixed_var.h
@@ -35,6 +35,7 @@ namespace CubicleSoft
 
 		StaticMixedVar() : MxMode(MV_None), MxInt(0), MxDouble(0.0), MxStrPos(0)
 		{
+			MxStr[0] = '\0';
 		}
 
 		// Some functions for those who prefer member functions over directly accessing raw class data.
-- 
2.43.0


From 13ba28d603963a69c9b75fbe1f294c1c7a283476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:02 +0000
Subject: [PATCH 21/57] fix: shared library void calls never called the
 function

---
 templates/shared_lib_util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/shared_lib_util.h b/templates/shared_lib_util.h
index 2a19779..3df905a 100644
--- a/templates/shared_lib_util.h
+++ b/templates/shared_lib_util.h
@@ -22,7 +22,7 @@ bool CUBICLESOFT_SHARED_LIBRARY_PREFIX_VOID(FunctionUtil &Func, Args... FuncArgs
 {
 	FARPROC FuncAddressPtr;
 
-	if ((FuncAddressPtr = Func.GetFuncPtr()) == NULL || (FuncAddressPtr = Func.LoadFuncPtr()) == NULL)  return false;
+	if ((FuncAddressPtr = Func.GetFuncPtr()) == NULL && (FuncAddressPtr = Func.LoadFuncPtr()) == NULL)  return false;
 
 	(*((void (CUBICLESOFT_SHARED_LIBRARY_CALLCONV *)(Args...))FuncAddressPtr))(FuncArgs...);
 
@@ -84,7 +84,7 @@ bool CUBICLESOFT_SHARED_LIBRARY_PREFIX_VOID(FunctionUtil &Func, Args... FuncArgs
 {
 	void *FuncAddressPtr;
 
-	if ((FuncAddressPtr = Func.GetFuncPtr()) == NULL || (FuncAddressPtr = Func.LoadFuncPtr()) == NULL)  return false;
+	if ((FuncAddressPtr = Func.GetFuncPtr()) == NULL && (FuncAddressPtr = Func.LoadFuncPtr()) == NULL)  return false;
 
 	(*((void (CUBICLESOFT_SHARED_LIBRARY_CALLCONV *)(Args...))FuncAddressPtr))(FuncArgs...);
 
-- 
2.43.0


From 7ca727bf468ab86411d4b03ab168db38e82700d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:33 +0000
Subject: [PATCH 22/57] fix: UTF-8 parsing functions recursed into each other
 forever

---
 utf8/utf8_util.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utf8/utf8_util.cpp b/utf8/utf8_util.cpp
index f3aa7d8..b941bf6 100644
--- a/utf8/utf8_util.cpp
+++ b/utf8/utf8_util.cpp
@@ -3,6 +3,8 @@
 
 #include "utf8_util.h"
 
+#include <cstring>
+
 namespace CubicleSoft
 {
 	namespace UTF8
@@ -339,7 +341,7 @@ namespace CubicleSoft
 			}
 			else
 			{
-				Size = strlen(Str);
+				Size = std::strlen(Str);
 				HasCombiningCP = false;
 
 				ResultCP = Str2[0];
-- 
2.43.0


From b5af8e7a2a4f4973c512860def5b41e0e193571f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:33 +0000
Subject: [PATCH 23/57] fix: allocating UTF-8 decoder used an uninitialised
 size and did not terminate its result

---
 utf8/utf8_util.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/utf8/utf8_util.cpp b/utf8/utf8_util.cpp
index b941bf6..bea08a2 100644
--- a/utf8/utf8_util.cpp
+++ b/utf8/utf8_util.cpp
@@ -55,14 +55,18 @@ namespace CubicleSoft
 			size_t x, y;
 			void *DestData;
 
-			x = strlen(SrcData);
+			x = std::strlen(SrcData);
+			y = (size_t)-1;
 			ConvertFromUTF8((const std::uint8_t *)SrcData, x, NULL, y, DestWidth);
-			if (DestWidth == 1)  DestData = (AltMalloc != NULL ? (std::uint8_t *)AltMalloc(AltMallocManager, y) : new std::uint8_t[y]);
-			else if (DestWidth == 2)  DestData = (AltMalloc != NULL ? (std::uint16_t *)AltMalloc(AltMallocManager, y * sizeof(uint16_t)) : new uint16_t[y]);
-			else if (DestWidth == 4)  DestData = (AltMalloc != NULL ? (std::uint32_t *)AltMalloc(AltMallocManager, y * sizeof(uint32_t)) : new std::uint32_t[y]);
+			if (DestWidth == 1)  DestData = (AltMalloc != NULL ? (std::uint8_t *)AltMalloc(AltMallocManager, y + 1) : new std::uint8_t[y + 1]);
+			else if (DestWidth == 2)  DestData = (AltMalloc != NULL ? (std::uint16_t *)AltMalloc(AltMallocManager, (y + 1) * sizeof(uint16_t)) : new uint16_t[y + 1]);
+			else if (DestWidth == 4)  DestData = (AltMalloc != NULL ? (std::uint32_t *)AltMalloc(AltMallocManager, (y + 1) * sizeof(uint32_t)) : new std::uint32_t[y + 1]);
 			else  return NULL;
 			ConvertFromUTF8((const std::uint8_t *)SrcData, x, DestData, y, DestWidth);
 
+			// Terminate the string.
+			memset((std::uint8_t *)DestData + y * DestWidth, 0, DestWidth);
+
 			return DestData;
 		}
 
-- 
2.43.0


From f6ab47cc5e85bab59f9f4d0bc583d1ee3a3fdc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:33 +0000
Subject: [PATCH 24/57] fix: UTF-8 cleanup did not report the last position for
 three and four byte sequences

---
 utf8/utf8_util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utf8/utf8_util.cpp b/utf8/utf8_util.cpp
index bea08a2..be80819 100644
--- a/utf8/utf8_util.cpp
+++ b/utf8/utf8_util.cpp
@@ -161,14 +161,14 @@ namespace CubicleSoft
 					else if (x + 2 < SrcDataSize && (TempCP & 0xF0) == 0xE0 && (SrcData2[x + 1] & 0xC0) == 0x80 && (SrcData2[x + 2] & 0xC0) == 0x80)
 					{
 						TempCP = (((TempCP & 0x0F) << 12) | (((std::uint32_t)SrcData2[x + 1] & 0x3F) << 6) | ((std::uint32_t)SrcData2[x + 2] & 0x3F));
-						AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y);
 						x += 3;
+						if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x;
 					}
 					else if (x + 3 < SrcDataSize && (TempCP & 0xF8) == 0xF0 && (SrcData2[x + 1] & 0xC0) == 0x80 && (SrcData2[x + 2] & 0xC0) == 0x80 && (SrcData2[x + 3] & 0xC0) == 0x80)
 					{
 						TempCP = (((TempCP & 0x07) << 18) | (((std::uint32_t)SrcData2[x + 1] & 0x3F) << 12) | (((std::uint32_t)SrcData2[x + 2] & 0x3F) << 6) | ((std::uint32_t)SrcData2[x + 3] & 0x3F));
-						if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x;
 						x += 4;
+						if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x;
 					}
 					else  x++;
 				}
-- 
2.43.0


From 61d39130ef4f641485f282871e5f65498d7f2ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:33 +0000
Subject: [PATCH 25/57] fix: converting to UTF-8 into a full buffer skipped
 characters in the middle of the string

---
 utf8/utf8_util.cpp | 34 +++++++++++++++++++++++++++++-----
 utf8/utf8_util.h   |  2 +-
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/utf8/utf8_util.cpp b/utf8/utf8_util.cpp
index be80819..296e785 100644
--- a/utf8/utf8_util.cpp
+++ b/utf8/utf8_util.cpp
@@ -70,7 +70,7 @@ namespace CubicleSoft
 			return DestData;
 		}
 
-		bool Util::AppendUTF8CodePoint(std::uint32_t TempCP, std::uint8_t *DestData, size_t &DestDataSize, size_t MaxDestDataSize)
+		bool Util::AppendUTF8CodePoint(std::uint32_t TempCP, std::uint8_t *DestData, size_t &DestDataSize, size_t &MaxDestDataSize)
 		{
 			// 0xD800-0xDFFF are for UTF-16 surrogate pairs.  Invalid characters.
 			// 0xFDD0-0xFDEF are non-characters.
@@ -83,7 +83,13 @@ namespace CubicleSoft
 			if (TempCP <= 0x7F)
 			{
 				if (DestData == NULL)  DestDataSize++;
-				else if (DestDataSize >= MaxDestDataSize)  return false;
+				else if (DestDataSize >= MaxDestDataSize)
+				{
+					// Out of space.  Later, shorter code points must not be stored after the gap.
+					MaxDestDataSize = DestDataSize;
+
+					return false;
+				}
 				else  DestData[DestDataSize++] = (std::uint8_t)TempCP;
 
 				return true;
@@ -91,7 +97,13 @@ namespace CubicleSoft
 			else if (TempCP <= 0x07FF)
 			{
 				if (DestData == NULL)  DestDataSize += 2;
-				else if (DestDataSize + 1 >= MaxDestDataSize)  return false;
+				else if (DestDataSize + 1 >= MaxDestDataSize)
+				{
+					// Out of space.  Later, shorter code points must not be stored after the gap.
+					MaxDestDataSize = DestDataSize;
+
+					return false;
+				}
 				else
 				{
 					DestData[DestDataSize++] = (std::uint8_t)(0xC0 | (TempCP >> 6));
@@ -103,7 +115,13 @@ namespace CubicleSoft
 			else if (TempCP <= 0xFFFF)
 			{
 				if (DestData == NULL)  DestDataSize += 3;
-				else if (DestDataSize + 2 >= MaxDestDataSize)  return false;
+				else if (DestDataSize + 2 >= MaxDestDataSize)
+				{
+					// Out of space.  Later, shorter code points must not be stored after the gap.
+					MaxDestDataSize = DestDataSize;
+
+					return false;
+				}
 				else
 				{
 					DestData[DestDataSize++] = (std::uint8_t)(0xE0 | (TempCP >> 12));
@@ -116,7 +134,13 @@ namespace CubicleSoft
 			else if (TempCP <= 0x10FFFF)
 			{
 				if (DestData == NULL)  DestDataSize += 4;
-				else if (DestDataSize + 3 >= MaxDestDataSize)  return false;
+				else if (DestDataSize + 3 >= MaxDestDataSize)
+				{
+					// Out of space.  Later, shorter code points must not be stored after the gap.
+					MaxDestDataSize = DestDataSize;
+
+					return false;
+				}
 				else
 				{
 					DestData[DestDataSize++] = (std::uint8_t)(0xF0 | (TempCP >> 18));
diff --git a/utf8/utf8_util.h b/utf8/utf8_util.h
index 026aef8..7663b34 100644
--- a/utf8/utf8_util.h
+++ b/utf8/utf8_util.h
@@ -50,7 +50,7 @@ namespace CubicleSoft
 			static bool IsCombiningCodePoint(std::uint32_t CodePoint);
 
 		private:
-			static bool AppendUTF8CodePoint(std::uint32_t TempCP, std::uint8_t *DestData, size_t &DestDataSize, size_t MaxDestDataSize);
+			static bool AppendUTF8CodePoint(std::uint32_t TempCP, std::uint8_t *DestData, size_t &DestDataSize, size_t &MaxDestDataSize);
 			static bool AppendUTFCodePoint(std::uint32_t TempCP, void *DestData, size_t &DestDataSize, size_t DestWidth, size_t MaxDestDataSize);
 		};
 	}
-- 
2.43.0


From 66820f0c83ae9bba0f3e8393fe3e94d709a8da79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:33 +0000
Subject: [PATCH 26/57] fix: UTF-8 parsing returned lead bytes instead of code
 points

---
 utf8/utf8_util.cpp | 47 +++++++++++++++++++++++++++++-----------------
 utf8/utf8_util.h   |  1 +
 2 files changed, 31 insertions(+), 17 deletions(-)

diff --git a/utf8/utf8_util.cpp b/utf8/utf8_util.cpp
index 296e785..bb1918b 100644
--- a/utf8/utf8_util.cpp
+++ b/utf8/utf8_util.cpp
@@ -358,6 +358,34 @@ namespace CubicleSoft
 			return false;
 		}
 
+		// Decodes one code point and moves past it.  Returns 0 at the end of the string and for invalid characters.
+		std::uint32_t Util::DecodeCodePoint(const std::uint8_t *Str, size_t &Pos, size_t Size)
+		{
+			std::uint32_t Result = Str[Pos];
+
+			if (Result == 0)  return 0;
+
+			if (Result <= 0x7F)  Pos++;
+			else if (Pos + 1 < Size && (Result & 0xE0) == 0xC0 && (Str[Pos + 1] & 0xC0) == 0x80)
+			{
+				Result = (((Result & 0x1F) << 6) | ((std::uint32_t)Str[Pos + 1] & 0x3F));
+				Pos += 2;
+			}
+			else if (Pos + 2 < Size && (Result & 0xF0) == 0xE0 && (Str[Pos + 1] & 0xC0) == 0x80 && (Str[Pos + 2] & 0xC0) == 0x80)
+			{
+				Result = (((Result & 0x0F) << 12) | (((std::uint32_t)Str[Pos + 1] & 0x3F) << 6) | ((std::uint32_t)Str[Pos + 2] & 0x3F));
+				Pos += 3;
+			}
+			else if (Pos + 3 < Size && (Result & 0xF8) == 0xF0 && (Str[Pos + 1] & 0xC0) == 0x80 && (Str[Pos + 2] & 0xC0) == 0x80 && (Str[Pos + 3] & 0xC0) == 0x80)
+			{
+				Result = (((Result & 0x07) << 18) | (((std::uint32_t)Str[Pos + 1] & 0x3F) << 12) | (((std::uint32_t)Str[Pos + 2] & 0x3F) << 6) | ((std::uint32_t)Str[Pos + 3] & 0x3F));
+				Pos += 4;
+			}
+			else  return 0;
+
+			return Result;
+		}
+
 		bool Util::NextCodePoint(std::uint32_t &ResultCP, std::uint32_t &NextCP, const char *Str, size_t &Pos, size_t &Size, bool &HasCombiningCP)
 		{
 			const std::uint8_t *Str2 = (const std::uint8_t *)Str;
@@ -372,29 +400,14 @@ namespace CubicleSoft
 				Size = std::strlen(Str);
 				HasCombiningCP = false;
 
-				ResultCP = Str2[0];
+				ResultCP = DecodeCodePoint(Str2, Pos, Size);
 				if (ResultCP == 0)  return false;
 
-				if (ResultCP <= 0x7F)  Pos++;
-				else if (Pos + 1 < Size && (ResultCP & 0xE0) == 0xC0 && (Str2[Pos + 1] & 0xC0) == 0x80)  Pos += 2;
-				else if (Pos + 2 < Size && (ResultCP & 0xF0) == 0xE0 && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80)  Pos += 3;
-				else if (Pos + 3 < Size && (ResultCP & 0xF8) == 0xF0 && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80 && (Str2[Pos + 3] & 0xC0) == 0x80)  Pos += 4;
-				else  return false;
-
 				// First character can't be a combining code point.
 				if ((ResultCP >= 0x0300 && ResultCP <= 0x036F) || (ResultCP >= 0x1DC0 && ResultCP <= 0x1DFF) || (ResultCP >= 0x20D0 && ResultCP <= 0x20FF) || (ResultCP >= 0xFE20 && ResultCP <= 0xFE2F))  return false;
 			}
 
-			NextCP = Str2[Pos];
-
-			if (NextCP != 0)
-			{
-				if (NextCP <= 0x7F)  Pos++;
-				else if (Pos + 1 < Size && (NextCP & 0xE0) == 0xC0 && (Str2[Pos + 1] & 0xC0) == 0x80)  Pos += 2;
-				else if (Pos + 2 < Size && (NextCP & 0xF0) == 0xE0 && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80)  Pos += 3;
-				else if (Pos + 3 < Size && (NextCP & 0xF8) == 0xF0 && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80 && (Str2[Pos + 3] & 0xC0) == 0x80)  Pos += 4;
-				else  NextCP = 0;
-			}
+			NextCP = DecodeCodePoint(Str2, Pos, Size);
 
 			HasCombiningCP = ((NextCP >= 0x0300 && NextCP <= 0x036F) || (NextCP >= 0x1DC0 && NextCP <= 0x1DFF) || (NextCP >= 0x20D0 && NextCP <= 0x20FF) || (NextCP >= 0xFE20 && NextCP <= 0xFE2F));
 
diff --git a/utf8/utf8_util.h b/utf8/utf8_util.h
index 7663b34..d63ea5d 100644
--- a/utf8/utf8_util.h
+++ b/utf8/utf8_util.h
@@ -50,6 +50,7 @@ namespace CubicleSoft
 			static bool IsCombiningCodePoint(std::uint32_t CodePoint);
 
 		private:
+			static std::uint32_t DecodeCodePoint(const std::uint8_t *Str, size_t &Pos, size_t Size);
 			static bool AppendUTF8CodePoint(std::uint32_t TempCP, std::uint8_t *DestData, size_t &DestDataSize, size_t &MaxDestDataSize);
 			static bool AppendUTFCodePoint(std::uint32_t TempCP, void *DestData, size_t &DestDataSize, size_t DestWidth, size_t MaxDestDataSize);
 		};
-- 
2.43.0


From 430d82df9b3060bf63b9e6a1249038377b4f036e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:33 +0000
Subject: [PATCH 27/57] fix: finding a code point returned the position of the
 lookahead

---
 utf8/utf8_util.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/utf8/utf8_util.cpp b/utf8/utf8_util.cpp
index bb1918b..6e29564 100644
--- a/utf8/utf8_util.cpp
+++ b/utf8/utf8_util.cpp
@@ -338,7 +338,7 @@ namespace CubicleSoft
 
 		bool Util::FindCodePoint(size_t &ResultPos, std::uint32_t CodePoint, const char *Str, bool AllowCombiningCP)
 		{
-			size_t x, y;
+			size_t x, y, CurrPos = 0;
 			std::uint32_t ResultCP, NextCP;
 			bool HasCombiningCP;
 
@@ -349,10 +349,14 @@ namespace CubicleSoft
 			{
 				if (ResultCP == CodePoint && (AllowCombiningCP || !HasCombiningCP))
 				{
-					ResultPos = x;
+					ResultPos = CurrPos;
 
 					return true;
 				}
+
+				// NextCodePoint() looks ahead so the start of each code point has to be tracked here.
+				std::uint8_t TempChr = (std::uint8_t)Str[CurrPos];
+				CurrPos += (TempChr <= 0x7F ? 1 : ((TempChr & 0xE0) == 0xC0 ? 2 : ((TempChr & 0xF0) == 0xE0 ? 3 : 4)));
 			}
 
 			return false;
-- 
2.43.0


From 53a210156497d30e884448bee2f834bed25696b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:33 +0000
Subject: [PATCH 28/57] fix: UTF8MixedVar truncated appended non-ASCII text and
 could cut a code point in half

---
 utf8/utf8_mixed_var.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/utf8/utf8_mixed_var.h b/utf8/utf8_mixed_var.h
index 9227fac..17cd3f7 100644
--- a/utf8/utf8_mixed_var.h
+++ b/utf8/utf8_mixed_var.h
@@ -30,9 +30,9 @@ namespace CubicleSoft
 			void SetUTF8(const WCHAR *src, size_t srcsize)
 			{
 				this->MxMode = MV_Str;
-				this->MxStrPos = sizeof(this->MxStr);
+				this->MxStrPos = sizeof(this->MxStr) - 1;
 				Util::ConvertToUTF8(src, srcsize, sizeof(WCHAR), (std::uint8_t *)this->MxStr, this->MxStrPos);
-				if (this->MxStrPos == sizeof(this->MxStr) || (this->MxStrPos && this->MxStr[this->MxStrPos - 1] == '\0'))  this->MxStrPos--;
+				if (this->MxStrPos && this->MxStr[this->MxStrPos - 1] == '\0')  this->MxStrPos--;
 				this->MxStr[this->MxStrPos] = '\0';
 			}
 
@@ -49,10 +49,10 @@ namespace CubicleSoft
 			void AppendUTF8(const WCHAR *src)
 			{
 				size_t srcsize = wcslen(src);
-				if (srcsize > sizeof(this->MxStr) - this->MxStrPos)  srcsize = sizeof(this->MxStr) - this->MxStrPos;
-				Util::ConvertToUTF8(src, srcsize, sizeof(WCHAR), (std::uint8_t *)this->MxStr + this->MxStrPos, srcsize);
-				this->MxStrPos += srcsize;
-				if (this->MxStrPos == sizeof(this->MxStr) || (this->MxStrPos && this->MxStr[this->MxStrPos - 1] == '\0'))  this->MxStrPos--;
+				size_t destsize = sizeof(this->MxStr) - 1 - this->MxStrPos;
+				Util::ConvertToUTF8(src, srcsize, sizeof(WCHAR), (std::uint8_t *)this->MxStr + this->MxStrPos, destsize);
+				this->MxStrPos += destsize;
+				if (this->MxStrPos && this->MxStr[this->MxStrPos - 1] == '\0')  this->MxStrPos--;
 				this->MxStr[this->MxStrPos] = '\0';
 			}
 		};
-- 
2.43.0


From 3e7a6251f8f5544cbac480981198e416d9088f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:48 +0000
Subject: [PATCH 29/57] fix: storage directory functions wrote one byte past an
 exactly sized buffer and read before an empty one

---
 utf8/utf8_appinfo.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utf8/utf8_appinfo.cpp b/utf8/utf8_appinfo.cpp
index 878a5f8..6e6fda8 100644
--- a/utf8/utf8_appinfo.cpp
+++ b/utf8/utf8_appinfo.cpp
@@ -184,7 +184,7 @@ namespace CubicleSoft
 			if (HomeDir == NULL)  HomeDir = getpwuid(getuid())->pw_dir;
 			if (HomeDir == NULL)  return false;
 
-			if (z2 < strlen(HomeDir))  return false;
+			if (z2 <= strlen(HomeDir))  return false;
 
 			strcpy(Buffer, HomeDir);
 			size_t z = strlen(HomeDir);
@@ -198,7 +198,7 @@ namespace CubicleSoft
 			BufferSize = 0;
 			if (z2)  Buffer[0] = '\0';
 
-			if (z2 < 5)  return false;
+			if (z2 < 6)  return false;
 
 			strcpy(Buffer, "/tmp/");
 			size_t z = 5;
@@ -209,7 +209,7 @@ namespace CubicleSoft
 		// Internal function to standardize a directory on *NIX.
 		bool AppInfo::GetNIXStorageDir(char *Buffer, size_t &BufferSize, const char *AppDirPrefix, const char *AppDir, size_t z, size_t z2)
 		{
-			if (z < z2 && Buffer[z - 1] != '/')  Buffer[z++] = '/';
+			if (z < z2 && (!z || Buffer[z - 1] != '/'))  Buffer[z++] = '/';
 			if (AppDir != NULL)
 			{
 				if (AppDirPrefix != NULL)
-- 
2.43.0


From 79bb039d79ae35b5ac09d2a10c052ddd6c1ccb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:47 +0000
Subject: [PATCH 30/57] fix: a file that could not be locked was left open
 after a failed open

---
 utf8/utf8_file_dir.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 672d843..2c9ff5d 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1259,17 +1259,32 @@ namespace CubicleSoft
 			// Closest to Windows support is to just lock exclusively for ShareRead and ShareWrite.
 			if (ShareFlag == ShareNone || ShareFlag == ShareRead || ShareFlag == ShareWrite)
 			{
-				if (::flock(MxFile, LOCK_EX | LOCK_NB) < 0)  return false;
+				if (::flock(MxFile, LOCK_EX | LOCK_NB) < 0)
+				{
+					Close();
+
+					return false;
+				}
 
 				MxLocked = true;
 			}
 			else if (ShareFlag == ShareBoth)
 			{
-				if (::flock(MxFile, LOCK_SH | LOCK_NB) < 0)  return false;
+				if (::flock(MxFile, LOCK_SH | LOCK_NB) < 0)
+				{
+					Close();
+
+					return false;
+				}
 
 				MxLocked = true;
 			}
-			else  return false;
+			else
+			{
+				Close();
+
+				return false;
+			}
 
 			off64_t Pos = ::lseek64(MxFile, 0, SEEK_CUR);
 			MxCurrPos = (Pos >= 0 ? (std::uint64_t)Pos : 0);
-- 
2.43.0


From b7c7c988ff89ad96e94d0563ae675667b49168a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:47 +0000
Subject: [PATCH 31/57] fix: files opened for appending reported the wrong
 position

---
 utf8/utf8_file_dir.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 2c9ff5d..e374637 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1289,6 +1289,7 @@ namespace CubicleSoft
 			off64_t Pos = ::lseek64(MxFile, 0, SEEK_CUR);
 			MxCurrPos = (Pos >= 0 ? (std::uint64_t)Pos : 0);
 			UpdateMaxPos();
+			if (Flags & O_APPEND)  Seek(File::SeekEnd, 0);
 
 			return true;
 		}
-- 
2.43.0


From d8de6db99bff9d2a04d64b45cfb88f1311d74348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:47 +0000
Subject: [PATCH 32/57] fix: seeking forward by a huge amount wrapped around to
 the start of the file

---
 utf8/utf8_file_dir.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index e374637..66ebf56 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -142,7 +142,7 @@ namespace CubicleSoft
 			{
 				case File::SeekStart:  TempPos = (Pos <= MxMaxPos ? Pos : MxMaxPos);  break;
 				case File::SeekEnd:  TempPos = (Pos <= MxMaxPos ? MxMaxPos - Pos : 0);  break;
-				case File::SeekForward:  TempPos = (MxCurrPos + Pos <= MxMaxPos ? MxCurrPos + Pos : MxMaxPos);  break;
+				case File::SeekForward:  TempPos = (MxCurrPos <= MxMaxPos && Pos <= MxMaxPos - MxCurrPos ? MxCurrPos + Pos : MxMaxPos);  break;
 				case File::SeekBackward:  TempPos = (MxCurrPos >= Pos ? MxCurrPos - Pos : 0);  break;
 				default:  TempPos = MxCurrPos;  break;
 			}
@@ -1304,7 +1304,7 @@ namespace CubicleSoft
 			{
 				case File::SeekStart:  TempPos = (Pos <= MxMaxPos ? Pos : MxMaxPos);  break;
 				case File::SeekEnd:  TempPos = (Pos <= MxMaxPos ? MxMaxPos - Pos : 0);  break;
-				case File::SeekForward:  TempPos = (MxCurrPos + Pos <= MxMaxPos ? MxCurrPos + Pos : MxMaxPos);  break;
+				case File::SeekForward:  TempPos = (MxCurrPos <= MxMaxPos && Pos <= MxMaxPos - MxCurrPos ? MxCurrPos + Pos : MxMaxPos);  break;
 				case File::SeekBackward:  TempPos = (MxCurrPos >= Pos ? MxCurrPos - Pos : 0);  break;
 				default:  TempPos = MxCurrPos;  break;
 			}
-- 
2.43.0


From 7f6405847e50e987525dfbccf89b89c50aec2d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:47 +0000
Subject: [PATCH 33/57] fix: an interrupted file write corrupted the data and a
 failed one lost track of the position

---
 utf8/utf8_file_dir.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 66ebf56..935e79e 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1352,7 +1352,12 @@ namespace CubicleSoft
 			do
 			{
 				BytesWritten = ::write(MxFile, Data, DataSize);
-				if (BytesWritten < 0 && errno != EINTR)  return false;
+				if (BytesWritten < 0)
+				{
+					if (errno == EINTR)  continue;
+
+					break;
+				}
 
 				DataSize -= BytesWritten;
 				Data += BytesWritten;
@@ -1361,7 +1366,7 @@ namespace CubicleSoft
 			MxCurrPos += (std::uint64_t)DataWritten;
 			if (MxCurrPos > MxMaxPos)  MxMaxPos = MxCurrPos;
 
-			return true;
+			return (DataSize == 0);
 		}
 
 		bool File::Flush()
-- 
2.43.0


From bbd1965732acbee1adf159b103dc73bc49a439b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:47 +0000
Subject: [PATCH 34/57] fix: filenames with non-ASCII characters were rejected
 as control characters

---
 utf8/utf8_file_dir.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 935e79e..529d1ee 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -272,7 +272,7 @@ namespace CubicleSoft
 			size_t LastPos = 0;
 			for (; x < y; x++)
 			{
-				TempCP = Result[x];
+				TempCP = (unsigned char)Result[x];
 
 				if (TempCP < 0x20 || TempCP == 0x7F || TempCP == ':' || TempCP == '*' || TempCP == '?' || TempCP == '\"' || TempCP == '<' || TempCP == '>' || TempCP == '|')  return false;
 				else if (TempCP == '.' || TempCP == '\\')
@@ -1403,7 +1403,7 @@ namespace CubicleSoft
 		bool File::GetPlatformFilename(char *Result, size_t ResultSize, const char *Filename, bool)
 		{
 			// Check for invalid characters in the path/filename.  Replace '\' with '/'.
-			char TempCP;
+			unsigned char TempCP;
 			size_t x, y = strlen(Filename);
 			if (y + 1 > ResultSize)  return false;
 			Util::ConvertToUTF8(Filename, y + 1, sizeof(char), (std::uint8_t *)Result, ResultSize);
@@ -1412,7 +1412,7 @@ namespace CubicleSoft
 			// Ignore combining code points since kernels are generally not fully UTF-8 aware.
 			for (x = 0; x < y; x++)
 			{
-				TempCP = Result[x];
+				TempCP = (unsigned char)Result[x];
 
 				if (TempCP < 0x20 || TempCP == 0x7F || TempCP == '*' || TempCP == '?' || TempCP == '\"' || TempCP == '<' || TempCP == '>' || TempCP == '|')  return false;
 				else if (TempCP == '\\')  Result[x] = '/';
-- 
2.43.0


From 89bb454ed95025a6c01d29ee699c3e79691c53b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:47 +0000
Subject: [PATCH 35/57] fix: absolute filename calculation mishandled a leading
 or lone dot or dot-dot

---
 utf8/utf8_file_dir.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 529d1ee..bf14ff8 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1446,7 +1446,10 @@ namespace CubicleSoft
 		{
 			char Filename2[8192], Filename3[8192];
 
-			if (!GetPlatformFilename(Filename3, 8192, Filename))  return false;
+			// A leading path separator allows '.' and '..' at the start of the filename to be handled like everywhere else.
+			Filename3[0] = '/';
+			if (!GetPlatformFilename(Filename3 + 1, 8191, Filename))  return false;
+			bool Absolute = (Filename3[1] == '/');
 
 			// Replace '/./' with '/'.
 			size_t x, x2, y = strlen(Filename3);
@@ -1500,7 +1503,7 @@ namespace CubicleSoft
 			}
 
 			GetPlatformFilenameInfo(FileInfo2, Filename2);
-			if (Filename3[FileInfo3.StartPath] == '/')  FileInfo2.Length = FileInfo2.StartPath;
+			if (Absolute)  FileInfo2.Length = FileInfo2.StartPath;
 
 			// Make sure the string always starts with a path separator.
 			if (FileInfo2.Length >= 8191)  return false;
@@ -1523,6 +1526,7 @@ namespace CubicleSoft
 				if (FileInfo2.Length >= 8191)  return false;
 				Filename2[FileInfo2.Length++] = Filename3[x];
 			}
+			Filename2[FileInfo2.Length] = '\0';
 
 			// Copy the rest.
 			x = 0;
-- 
2.43.0


From 106a2768309118bdd40214240e9267a0fb32004f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:47 +0000
Subject: [PATCH 36/57] fix: absolute filename calculation reported success for
 a truncated result

---
 utf8/utf8_file_dir.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index bf14ff8..ee65253 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1537,6 +1537,7 @@ namespace CubicleSoft
 
 				Result[x2++] = Filename2[x];
 			}
+			if (x < FileInfo2.Length)  return false;
 			if (TrailingSlash && x2 && Result[x2 - 1] != '/' && x2 < ResultSize)  Result[x2++] = '/';
 			if (!TrailingSlash && x2 && Result[x2 - 1] == '/')  x2--;
 			if (x2 >= ResultSize)  return false;
-- 
2.43.0


From 4f1b91eec5d151bc72e2e6997843a0398ba884e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:47 +0000
Subject: [PATCH 37/57] fix: copying a file padded the copy to a multiple of
 the buffer size and ignored errors

---
 utf8/utf8_file_dir.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index ee65253..701c043 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1624,13 +1624,14 @@ namespace CubicleSoft
 			if (!DestFile.Open(DestFilename2, O_WRONLY | O_CREAT, File::ShareNone, SrcStat.st_mode))  return false;
 
 			std::uint8_t Buffer[8192];
-			size_t y;
+			size_t y, y2;
 
 			// Copy the data.
-			while (SrcFile.Read(Buffer, 8192, y) && y)
+			do
 			{
-				DestFile.Write(Buffer, 8192, y);
-			}
+				if (!SrcFile.Read(Buffer, 8192, y))  return false;
+				if (y && !DestFile.Write(Buffer, y, y2))  return false;
+			} while (y);
 
 			// Truncate the file to the current point.
 			if (::ftruncate(DestFile.MxFile, (off_t)DestFile.MxCurrPos) == 0)  {}
-- 
2.43.0


From 3b4088fa54a18317bc2f1d39fc2de29757b0ef0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:47 +0000
Subject: [PATCH 38/57] fix: the target of a symbolic link was not terminated

---
 utf8/utf8_file_dir.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 701c043..4c8d862 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1694,7 +1694,11 @@ namespace CubicleSoft
 		{
 			ssize_t Size = ::readlink(Filename, Result, ResultSize);
 
-			return (Size != -1 && (size_t)Size < ResultSize);
+			if (Size == -1 || (size_t)Size >= ResultSize)  return false;
+
+			Result[Size] = '\0';
+
+			return true;
 		}
 
 		// Only Windows supports Creation timestamp modification.
-- 
2.43.0


From 2abadccf82df876337adc66059003131a0a29280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:47 +0000
Subject: [PATCH 39/57] fix: changing the group of a file looked up a user
 instead of a group

---
 utf8/utf8_file_dir.cpp | 6 +++---
 utf8/utf8_file_dir.h   | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 4c8d862..8ca2358 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1601,10 +1601,10 @@ namespace CubicleSoft
 			char Filename2[8192];
 			if (!GetPlatformFilename(Filename2, 8192, Filename))  return false;
 
-			struct passwd *UserInfo = getpwnam(Group);
-			if (UserInfo == NULL)  return false;
+			struct group *GroupInfo = getgrnam(Group);
+			if (GroupInfo == NULL)  return false;
 
-			return (::chown(Filename2, -1, UserInfo->pw_gid) == 0);
+			return (::chown(Filename2, -1, GroupInfo->gr_gid) == 0);
 		}
 
 		bool File::Copy(const char *SrcFilename, const char *DestFilename)
diff --git a/utf8/utf8_file_dir.h b/utf8/utf8_file_dir.h
index 09640c3..19c8e29 100644
--- a/utf8/utf8_file_dir.h
+++ b/utf8/utf8_file_dir.h
@@ -25,6 +25,7 @@
 	#include <fcntl.h>
 	#include <unistd.h>
 	#include <pwd.h>
+	#include <grp.h>
 	#include <errno.h>
 	#include <utime.h>
 	#include <dirent.h>
-- 
2.43.0


From 5b332cc235a7a4a354d0d888808c23c878593a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:47 +0000
Subject: [PATCH 40/57] fix: reading a long line read past the end of the old
 buffer

---
 utf8/utf8_file_dir.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 8ca2358..29c6a29 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1909,7 +1909,7 @@ namespace CubicleSoft
 					else
 					{
 						Result2 = new char[CurrSize + 1];
-						memcpy(Result2, Result, CurrSize);
+						memcpy(Result2, Result, CurrSize - SizeHint);
 						delete[] Result;
 						Result = Result2;
 					}
-- 
2.43.0


From f9016d42db4f99135f2eb0e4ac1eb88cd41da166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:47 +0000
Subject: [PATCH 41/57] fix: JSON strings lost their slashes unless slashes
 were being escaped

---
 json/json_serializer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json/json_serializer.cpp b/json/json_serializer.cpp
index 231a791..f2b39cc 100644
--- a/json/json_serializer.cpp
+++ b/json/json_serializer.cpp
@@ -357,7 +357,7 @@ namespace CubicleSoft
 				{
 					case '"':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '"';  Val++;  break;
 					case '\\':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '\\';  Val++;  break;
-					case '/':  if (MxEscapeSlashes)  { MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '/'; }  Val++;  break;
+					case '/':  if (MxEscapeSlashes)  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '/';  Val++;  break;
 					case '\b':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'b';  Val++;  break;
 					case '\f':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'f';  Val++;  break;
 					case '\n':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'n';  Val++;  break;
@@ -381,7 +381,7 @@ namespace CubicleSoft
 				{
 					case '"':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '"';  Val++;  break;
 					case '\\':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '\\';  Val++;  break;
-					case '/':  if (MxEscapeSlashes)  { MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '/'; }  Val++;  break;
+					case '/':  if (MxEscapeSlashes)  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '/';  Val++;  break;
 					case '\b':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'b';  Val++;  break;
 					case '\f':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'f';  Val++;  break;
 					case '\n':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'n';  Val++;  break;
-- 
2.43.0


From 7e2bc7a6c8613090547ba910dd4f0ce94b3a004d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:47 +0000
Subject: [PATCH 42/57] fix: the size of a counted JSON string was calculated
 from its first character only

---
 json/json_serializer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/json/json_serializer.cpp b/json/json_serializer.cpp
index f2b39cc..7ef2877 100644
--- a/json/json_serializer.cpp
+++ b/json/json_serializer.cpp
@@ -315,6 +315,7 @@ namespace CubicleSoft
 				}
 
 				Result++;
+				Val++;
 				Size--;
 			}
 
-- 
2.43.0


From 44216bd2f29a6b8dd86557c764b354b4cdb10d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:47 +0000
Subject: [PATCH 43/57] fix: JSON strings contained raw control characters

---
 json/json_serializer.cpp | 44 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/json/json_serializer.cpp b/json/json_serializer.cpp
index 7ef2877..85c501a 100644
--- a/json/json_serializer.cpp
+++ b/json/json_serializer.cpp
@@ -275,6 +275,14 @@ namespace CubicleSoft
 
 						break;
 					}
+
+					default:
+					{
+						// Other control characters are written as '\u00XX'.
+						if ((std::uint8_t)*Val < 0x20)  Result += 5;
+
+						break;
+					}
 				}
 
 				Result++;
@@ -312,6 +320,14 @@ namespace CubicleSoft
 
 						break;
 					}
+
+					default:
+					{
+						// Other control characters are written as '\u00XX'.
+						if ((std::uint8_t)*Val < 0x20)  Result += 5;
+
+						break;
+					}
 				}
 
 				Result++;
@@ -364,7 +380,19 @@ namespace CubicleSoft
 					case '\n':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'n';  Val++;  break;
 					case '\r':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'r';  Val++;  break;
 					case '\t':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 't';  Val++;  break;
-					default:  MxBuffer[MxBufferPos++] = *Val++;  break;
+					default:
+					{
+						if ((std::uint8_t)*Val < 0x20)
+						{
+							sprintf((char *)MxBuffer + MxBufferPos, "\\u%04X", (unsigned int)(std::uint8_t)*Val);
+							MxBufferPos += 6;
+						}
+						else  MxBuffer[MxBufferPos++] = *Val;
+
+						Val++;
+
+						break;
+					}
 				}
 			}
 
@@ -388,7 +416,19 @@ namespace CubicleSoft
 					case '\n':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'n';  Val++;  break;
 					case '\r':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'r';  Val++;  break;
 					case '\t':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 't';  Val++;  break;
-					default:  MxBuffer[MxBufferPos++] = *Val++;  break;
+					default:
+					{
+						if ((std::uint8_t)*Val < 0x20)
+						{
+							sprintf((char *)MxBuffer + MxBufferPos, "\\u%04X", (unsigned int)(std::uint8_t)*Val);
+							MxBufferPos += 6;
+						}
+						else  MxBuffer[MxBufferPos++] = *Val;
+
+						Val++;
+
+						break;
+					}
 				}
 
 				Size--;
-- 
2.43.0


From 0164c7d8403718cd21bf54cbee5e68e861d9a24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:47 +0000
Subject: [PATCH 44/57] fix: NaN and infinity produced invalid JSON

---
 json/json_serializer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/json/json_serializer.cpp b/json/json_serializer.cpp
index 85c501a..879b1f3 100644
--- a/json/json_serializer.cpp
+++ b/json/json_serializer.cpp
@@ -171,6 +171,9 @@ namespace CubicleSoft
 
 		bool Serializer::AppendDouble(const char *Key, const double Val, const size_t Precision)
 		{
+			// NaN and infinity can't be represented.
+			if (Val != Val || Val - Val != 0.0)  return false;
+
 			char TempBuffer[100];
 #if (defined(_WIN32) || defined(WIN32) || defined(_WIN64) || defined(WIN64)) && defined(_MSC_VER) && _MSC_VER < 1900
 			_snprintf_s(TempBuffer, sizeof(TempBuffer), _TRUNCATE, "%1.*g", Precision, Val);
-- 
2.43.0


From 6d7b870dd68bd78f188869a187be3016d5c36cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:47 +0000
Subject: [PATCH 45/57] fix: JSON numbers with a high precision lost their
 exponent

---
 json/json_serializer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json/json_serializer.cpp b/json/json_serializer.cpp
index 879b1f3..6c1288d 100644
--- a/json/json_serializer.cpp
+++ b/json/json_serializer.cpp
@@ -176,10 +176,10 @@ namespace CubicleSoft
 
 			char TempBuffer[100];
 #if (defined(_WIN32) || defined(WIN32) || defined(_WIN64) || defined(WIN64)) && defined(_MSC_VER) && _MSC_VER < 1900
-			_snprintf_s(TempBuffer, sizeof(TempBuffer), _TRUNCATE, "%1.*g", Precision, Val);
+			_snprintf_s(TempBuffer, sizeof(TempBuffer), _TRUNCATE, "%1.*g", (Precision > 80 ? 80 : Precision), Val);
 			TempBuffer[sizeof(TempBuffer) - 1] = '\0';
 #else
-			snprintf(TempBuffer, sizeof(TempBuffer), "%1.*g", (int)Precision, Val);
+			snprintf(TempBuffer, sizeof(TempBuffer), "%1.*g", (int)(Precision > 80 ? 80 : Precision), Val);
 #endif
 
 			size_t x = strlen(TempBuffer);
-- 
2.43.0


From 01e1b2febee04b292646bcac6a5d1dc4f416c0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:47 +0000
Subject: [PATCH 46/57] fix: an empty JSON output buffer was treated as
 unlimited

---
 json/json_serializer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json/json_serializer.cpp b/json/json_serializer.cpp
index 6c1288d..5553b9b 100644
--- a/json/json_serializer.cpp
+++ b/json/json_serializer.cpp
@@ -29,7 +29,7 @@ namespace CubicleSoft
 		{
 			MxBuffer = Buffer;
 			MxBufferPos = 0;
-			MxBufferSize = BufferSize - 1;
+			MxBufferSize = (BufferSize ? BufferSize - 1 : 0);
 		}
 
 		bool Serializer::StartObject(const char *Key)
-- 
2.43.0


From 684a363283924081ce5db9f2af92718863ed7eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:47 +0000
Subject: [PATCH 47/57] fix: random byte generation looped forever on read
 errors and discarded short reads

---
 security/security_csprng.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/security/security_csprng.cpp b/security/security_csprng.cpp
index 10f2e0c..f81f23b 100644
--- a/security/security_csprng.cpp
+++ b/security/security_csprng.cpp
@@ -49,15 +49,18 @@ namespace CubicleSoft
 
 			ssize_t BytesRead;
 
-			do
+			while (Size)
 			{
 				do
 				{
 					BytesRead = read(MxURandom, Result, Size);
 				} while (BytesRead < 0 && errno == EINTR);
-			} while (BytesRead != (ssize_t)Size);
 
-			if (BytesRead < 0)  return false;
+				if (BytesRead <= 0)  return false;
+
+				Result += BytesRead;
+				Size -= (size_t)BytesRead;
+			}
 
 			return true;
 		}
-- 
2.43.0


From 305bd98a32b99d9e89ee70851f15d473c9498941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:21 +0000
Subject: [PATCH 48/57] fix: file size strings had wrong fractions for exabytes
 and many decimal places

---
 convert/convert_int.cpp | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/convert/convert_int.cpp b/convert/convert_int.cpp
index 1712940..8aa00ba 100644
--- a/convert/convert_int.cpp
+++ b/convert/convert_int.cpp
@@ -164,27 +164,16 @@ namespace CubicleSoft
 				if (x < NumFrac + 2)  return false;
 
 				Extra = Num % Divider;
-				for (x2 = 0; x2 < NumFrac; x2++)  Extra *= 10ULL;
-				Extra /= Divider;
-
-				while (Extra && NumFrac && x)
-				{
-					Result[--x] = (char)(Extra % 10) + '0';
-					Extra /= 10;
-					NumFrac--;
-				}
-
-				while (NumFrac && x)
+				x -= NumFrac;
+				for (x2 = 0; x2 < NumFrac; x2++)
 				{
-					Result[--x] = '0';
-					NumFrac--;
+					// Generate one digit at a time so that the calculation can't overflow.
+					Extra *= 10ULL;
+					Result[x + x2] = (char)(Extra / Divider) + '0';
+					Extra %= Divider;
 				}
 
-				if (Extra || !x)  return false;
-
 				Result[--x] = DecimalSeparator;
-
-				if (!x)  return false;
 			}
 
 			Num /= Divider;
-- 
2.43.0


From c38e74214d156baae6a97cc9817a42a822e774f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:13 +0000
Subject: [PATCH 49/57] fix: running out of memory in the thread local
 allocator crashed instead of failing

---
 sync/sync_tls.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index a9ca2f2..d955627 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -78,6 +78,7 @@ namespace CubicleSoft
 			if (MainPtr->GetSize() <= Pos)
 			{
 				Data = ::malloc(Size);
+				if (Data == NULL)  return NULL;
 				Data = (std::uint8_t *)Data + 1;
 			}
 			else
@@ -134,6 +135,7 @@ namespace CubicleSoft
 			{
 				// Allocate data.
 				Data2 = malloc(NewSize);
+				if (Data2 == NULL)  return NULL;
 
 				// Copy the data.
 				memcpy(Data2, Data, ((size_t)1 << Pos2));
-- 
2.43.0


From 18af59e25b6e013135b60b0036fe25998c680447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:53 +0000
Subject: [PATCH 50/57] fix: converting from UTF-16 dropped the character after
 an unpaired surrogate

---
 utf8/utf8_util.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/utf8/utf8_util.cpp b/utf8/utf8_util.cpp
index 6e29564..0918644 100644
--- a/utf8/utf8_util.cpp
+++ b/utf8/utf8_util.cpp
@@ -209,15 +209,12 @@ namespace CubicleSoft
 					{
 						if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x;
 					}
-					else
+					else if (x + 1 < SrcDataSize && SrcData2[x + 1] >= 0xDC00 && SrcData2[x + 1] <= 0xDFFF)
 					{
 						x++;
 
-						if (x < SrcDataSize && SrcData2[x] >= 0xDC00 && SrcData2[x] <= 0xDFFF)
-						{
-							TempCP = (((TempCP - 0xD800) << 10) | ((std::uint32_t)SrcData2[x] - 0xDC00)) + 0x010000;
-							if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x;
-						}
+						TempCP = (((TempCP - 0xD800) << 10) | ((std::uint32_t)SrcData2[x] - 0xDC00)) + 0x010000;
+						if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x;
 					}
 				}
 			}
-- 
2.43.0


From e41e1356c359f06e87471e9364a657d502873951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:42 +0000
Subject: [PATCH 51/57] fix: a truncated executable filename could be resolved
 to some other existing path

---
 utf8/utf8_appinfo.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utf8/utf8_appinfo.cpp b/utf8/utf8_appinfo.cpp
index 6e6fda8..364ecbf 100644
--- a/utf8/utf8_appinfo.cpp
+++ b/utf8/utf8_appinfo.cpp
@@ -131,7 +131,9 @@ namespace CubicleSoft
 			char *Filename;
 			if (z > 0)
 			{
-				if ((size_t)z < z2)  Buffer[z] = '\0';
+				if ((size_t)z >= z2)  return false;
+
+				Buffer[z] = '\0';
 
 				Filename = realpath(Buffer, NULL);
 			}
-- 
2.43.0


From 16fe7304aa520b83f4d541707699e9cd71b45d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:42 +0000
Subject: [PATCH 52/57] fix: looking up the home directory of a user without a
 passwd entry dereferenced NULL

---
 utf8/utf8_appinfo.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utf8/utf8_appinfo.cpp b/utf8/utf8_appinfo.cpp
index 364ecbf..1b7e417 100644
--- a/utf8/utf8_appinfo.cpp
+++ b/utf8/utf8_appinfo.cpp
@@ -183,7 +183,11 @@ namespace CubicleSoft
 			if (z2)  Buffer[0] = '\0';
 
 			const char *HomeDir = getenv("HOME");
-			if (HomeDir == NULL)  HomeDir = getpwuid(getuid())->pw_dir;
+			if (HomeDir == NULL)
+			{
+				struct passwd *TempUser = getpwuid(getuid());
+				if (TempUser != NULL)  HomeDir = TempUser->pw_dir;
+			}
 			if (HomeDir == NULL)  return false;
 
 			if (z2 <= strlen(HomeDir))  return false;
-- 
2.43.0


From 0ed3a1a5f8fd388130187a69cba608721a836529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:00 +0000
Subject: [PATCH 53/57] fix: a timed out semaphore or mutex wait could swallow
 the wakeup of another waiter

---
 sync/sync_util.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sync/sync_util.cpp b/sync/sync_util.cpp
index 6b3856c..af56abd 100644
--- a/sync/sync_util.cpp
+++ b/sync/sync_util.cpp
@@ -432,7 +432,8 @@ namespace CubicleSoft
 					if (Result2 != 0)  break;
 				} while (!UnixSemaphore.MxCount[0]);
 
-				if (Result2 == 0)
+				// A timed out wait may have consumed the signal for a unit that is now available so take it or other waiters could be left waiting on it.
+				if (Result2 == 0 || UnixSemaphore.MxCount[0])
 				{
 					UnixSemaphore.MxCount[0]--;
 
-- 
2.43.0


From 2023b2b48494713a19f3214f0626afb3a0e2c781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:03 +0000
Subject: [PATCH 54/57] fix: a short read in the middle of a line ended the
 line

---
 utf8/utf8_file_dir.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 29c6a29..701caa8 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1915,7 +1915,9 @@ namespace CubicleSoft
 					}
 				}
 
-				Read((std::uint8_t *)(Result + CurrSize - SizeHint), SizeHint, ReadSize);
+				// The system may return less data than requested before the end of the file.
+				ReadSize = 0;
+				while (ReadSize < SizeHint && Read((std::uint8_t *)(Result + CurrSize - SizeHint + ReadSize), SizeHint - ReadSize, x) && x)  ReadSize += x;
 				if (ReadSize < SizeHint)
 				{
 					CurrSize -= (SizeHint - ReadSize);
-- 
2.43.0


From f17a92b40fee883bde428cb18b062a56447576f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:03 +0000
Subject: [PATCH 55/57] fix: opening a locked file for truncation emptied it
 even though the open failed

---
 utf8/utf8_file_dir.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 701caa8..afc35f7 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1246,7 +1246,8 @@ namespace CubicleSoft
 			Flags |= O_CLOEXEC;
 #endif
 
-			MxFile = ::open(Filename2, Flags, Mode & 0777);
+			// Truncate only after the file has been locked.
+			MxFile = ::open(Filename2, (MxWrite ? Flags & ~O_TRUNC : Flags), Mode & 0777);
 			if (MxFile < 0)
 			{
 				MxFile = -1;
@@ -1286,6 +1287,13 @@ namespace CubicleSoft
 				return false;
 			}
 
+			if (MxWrite && (Flags & O_TRUNC) && ::ftruncate(MxFile, 0) < 0 && errno != EINVAL)
+			{
+				Close();
+
+				return false;
+			}
+
 			off64_t Pos = ::lseek64(MxFile, 0, SEEK_CUR);
 			MxCurrPos = (Pos >= 0 ? (std::uint64_t)Pos : 0);
 			UpdateMaxPos();
-- 
2.43.0


From d8b9bd51f4e0ce9207d56324cc4de50d16f6f42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:42 +0000
Subject: [PATCH 56/57] fix: a zero wait on a free reader-writer lock failed
 when the clock moved on during the call

---
 sync/sync_readwritelock.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sync/sync_readwritelock.cpp b/sync/sync_readwritelock.cpp
index 65206cc..a204f8b 100644
--- a/sync/sync_readwritelock.cpp
+++ b/sync/sync_readwritelock.cpp
@@ -80,7 +80,7 @@ namespace CubicleSoft
 
 			// Acquire the semaphore mutex.
 			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
-			if (Wait < CurrTime - StartTime || ::WaitForSingleObject(MxWinRSemMutex, Wait - (DWORD)(CurrTime - StartTime)) != WAIT_OBJECT_0)
+			if (::WaitForSingleObject(MxWinRSemMutex, (Wait > CurrTime - StartTime ? Wait - (DWORD)(CurrTime - StartTime) : 0)) != WAIT_OBJECT_0)
 			{
 				::ReleaseSemaphore(MxWinWWaitMutex, 1, NULL);
 
@@ -89,7 +89,7 @@ namespace CubicleSoft
 
 			// Acquire the semaphore.
 			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
-			if (Wait < CurrTime - StartTime || ::WaitForSingleObject(MxWinRSemaphore, Wait - (DWORD)(CurrTime - StartTime)) != WAIT_OBJECT_0)
+			if (::WaitForSingleObject(MxWinRSemaphore, (Wait > CurrTime - StartTime ? Wait - (DWORD)(CurrTime - StartTime) : 0)) != WAIT_OBJECT_0)
 			{
 				::ReleaseSemaphore(MxWinRSemMutex, 1, NULL);
 				::ReleaseSemaphore(MxWinWWaitMutex, 1, NULL);
@@ -129,7 +129,7 @@ namespace CubicleSoft
 
 			// Wait for readers to reach zero.
 			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
-			if (Wait < CurrTime - StartTime || ::WaitForSingleObject(MxWinRWaitEvent, Wait - (DWORD)(CurrTime - StartTime)) != WAIT_OBJECT_0)
+			if (::WaitForSingleObject(MxWinRWaitEvent, (Wait > CurrTime - StartTime ? Wait - (DWORD)(CurrTime - StartTime) : 0)) != WAIT_OBJECT_0)
 			{
 				::ReleaseSemaphore(MxWinWWaitMutex, 1, NULL);
 
@@ -269,7 +269,7 @@ namespace CubicleSoft
 
 			// Acquire the counter mutex.
 			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
-			if (Wait < CurrTime - StartTime || !Util::WaitForUnixSemaphore(MxPthreadRCountMutex, Wait - (CurrTime - StartTime)))
+			if (!Util::WaitForUnixSemaphore(MxPthreadRCountMutex, (Wait > CurrTime - StartTime ? (std::uint32_t)(Wait - (CurrTime - StartTime)) : 0)))
 			{
 				Util::ReleaseUnixSemaphore(MxPthreadWWaitMutex, NULL);
 
@@ -309,7 +309,7 @@ namespace CubicleSoft
 
 			// Wait for readers to reach zero.
 			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
-			if (Wait < CurrTime - StartTime || !Util::WaitForUnixEvent(MxPthreadRWaitEvent, Wait - (CurrTime - StartTime)))
+			if (!Util::WaitForUnixEvent(MxPthreadRWaitEvent, (Wait > CurrTime - StartTime ? (std::uint32_t)(Wait - (CurrTime - StartTime)) : 0)))
 			{
 				Util::ReleaseUnixSemaphore(MxPthreadWWaitMutex, NULL);
 
-- 
2.43.0


From e82730d2d42a2725962802697cefbcb4b1e6711e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:46 +0000
Subject: [PATCH 57/57] fix: moving a file reported success although the source
 could not be removed

---
 utf8/utf8_file_dir.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index afc35f7..d9d8201 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1671,7 +1671,7 @@ namespace CubicleSoft
 			if (!Result)
 			{
 				Result = File::Copy(SrcFilename2, DestFilename2);
-				if (Result)  ::unlink(SrcFilename2);
+				if (Result)  Result = (::unlink(SrcFilename2) == 0);
 			}
 
 			return Result;
-- 
2.43.0

