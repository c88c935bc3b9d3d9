From d09e1b581a25c4cbe048f4cd1e533d2a6f042c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:24 +0000
Subject: [PATCH 01/60] fix: _RestoreVertex() must end the restored adjacency
 list at its last arc

It cleared the previous link of the last arc, not its next link, so that the
restored list of v kept running into the arcs of u and could not be walked
backwards.
---
 c/graphLib/graphUtils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 273b8ab..18483ae 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -2285,7 +2285,7 @@ int _RestoreVertex(graphP theGraph)
         if (gp_IsArc(e_v_first))
             gp_SetPrevArc(theGraph, e_v_first, NIL);
         if (gp_IsArc(e_v_last))
-            gp_SetPrevArc(theGraph, e_v_last, NIL);
+            gp_SetNextArc(theGraph, e_v_last, NIL);
 
         // For each edge record restored to v's adjacency list, reassign the 'v' member
         //    of each twin arc to indicate v rather than u.
-- 
2.43.0


From 5b1c7e994aaad94c6f128b833d1c1e6ef379ffee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:52 +0000
Subject: [PATCH 02/60] fix: gp_ContractEdge() must record the contracted edge
 as hidden for gp_RestoreVertex()

The stack segment left by an edge contraction did not cover the edge itself
unless the contraction was reached through gp_IdentifyVertices(), so restoring
the vertex left the edge hidden and a stray integer on the stack.
---
 c/graphLib/graphUtils.c | 41 +++++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 18483ae..1ab2353 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -2001,7 +2001,7 @@ int gp_ContractEdge(graphP theGraph, int e)
 
 int _ContractEdge(graphP theGraph, int e)
 {
-    int eBefore, u, v;
+    int eBefore, u, v, hiddenEdgeStackBottom;
 
     if (gp_IsNotArc(e))
         return NOTOK;
@@ -2009,11 +2009,23 @@ int _ContractEdge(graphP theGraph, int e)
     u = gp_GetNeighbor(theGraph, gp_GetTwinArc(theGraph, e));
     v = gp_GetNeighbor(theGraph, e);
 
+    hiddenEdgeStackBottom = sp_GetCurrentSize(theGraph->theStack);
+
     eBefore = gp_GetNextArc(theGraph, e);
     sp_Push(theGraph->theStack, e);
     gp_HideEdge(theGraph, e);
 
-    return gp_IdentifyVertices(theGraph, u, v, eBefore);
+    if (gp_IdentifyVertices(theGraph, u, v, eBefore) != OK)
+        return NOTOK;
+
+    // The vertex identification pushes K hidden edges, then an integer
+    // indicating where the top of stack was before those edges were hidden,
+    // then six more integers to indicate edges that were moved from v to u.
+    // That "hidden edges stackBottom" integer must indicate where the top of
+    // stack was before e was pushed, so that gp_RestoreVertex() restores e too.
+    sp_Set(theGraph->theStack, sp_GetCurrentSize(theGraph->theStack) - 7, hiddenEdgeStackBottom);
+
+    return OK;
 }
 
 /********************************************************************
@@ -2062,28 +2074,13 @@ int _IdentifyVertices(graphP theGraph, int u, int v, int eBefore)
     int hiddenEdgeStackBottom, eBeforePred;
 
     // If the vertices are adjacent, then the identification is
-    // essentially an edge contraction with a bit of fixup.
+    // essentially an edge contraction.
     if (gp_IsArc(e))
     {
-        int result = gp_ContractEdge(theGraph, e);
-
-        // The edge contraction operation pushes one hidden edge then
-        // recursively calls this method. This method then pushes K
-        // hidden edges then an integer indicating where the top of
-        // stack was before the edges were hidden. That integer
-        // indicator must be decremented, thereby incrementing the
-        // number of hidden edges to K+1.
-        // After pushing the K hidden edges and the stackBottom of
-        // the hidden edges, the recursive call to this method pushes
-        // six more integers to indicate edges that were moved from
-        // v to u, so the "hidden edges stackBottom" is in the next
-        // position down.
-        int hiddenEdgesStackBottomIndex = sp_GetCurrentSize(theGraph->theStack) - 7;
-        int hiddenEdgesStackBottomValue = sp_Get(theGraph->theStack, hiddenEdgesStackBottomIndex);
-
-        sp_Set(theGraph->theStack, hiddenEdgesStackBottomIndex, hiddenEdgesStackBottomValue - 1);
-
-        return result;
+        // The edge contraction operation pushes one hidden edge, then
+        // recursively calls this method, then makes the stack segment
+        // indicate the hidden edge, too.
+        return gp_ContractEdge(theGraph, e);
     }
 
     // Now, u and v are not adjacent. Before we do any edge hiding or
-- 
2.43.0


From 92ffa3e65f24c80d465cc239eb78a45402d2299f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:47 +0000
Subject: [PATCH 03/60] fix: _ClearGraph() must clear the freed VI pointer

---
 c/graphLib/graphUtils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 1ab2353..83baf99 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -842,7 +842,7 @@ void _ClearGraph(graphP theGraph)
     if (theGraph->VI != NULL)
     {
         free(theGraph->VI);
-        theGraph->V = NULL;
+        theGraph->VI = NULL;
     }
     if (theGraph->E != NULL)
     {
-- 
2.43.0


From cf9074e16de47e9f6e319fb9b03f3e34f54e6018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:47 +0000
Subject: [PATCH 04/60] fix: gp_GetArcCapacity() must return the arc capacity

---
 c/graphLib/graphUtils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 83baf99..c17f0d5 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -341,7 +341,7 @@ void _ReinitializeGraph(graphP theGraph)
  ********************************************************************/
 int gp_GetArcCapacity(graphP theGraph)
 {
-    return theGraph->arcCapacity - gp_GetFirstEdge(theGraph);
+    return theGraph->arcCapacity;
 }
 
 /********************************************************************
-- 
2.43.0


From 5b264f07135b460ee47eb08f03c4a2df2ecf2264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:47 +0000
Subject: [PATCH 05/60] fix: gp_DynamicAddEdge() must not overflow when
 limiting the new arc capacity

---
 c/graphLib/graphUtils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index c17f0d5..e4b572e 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1675,7 +1675,7 @@ int gp_DynamicAddEdge(graphP theGraph, int u, int ulink, int v, int vlink)
     {
         int candidateArcCapacity = gp_GetArcCapacity(theGraph) * 2;
         int N = theGraph->N;
-        int newArcCapacity = (candidateArcCapacity > (N * (N - 1))) ? (N * (N - 1)) : candidateArcCapacity;
+        int newArcCapacity = (candidateArcCapacity / N >= N - 1) ? (N * (N - 1)) : candidateArcCapacity;
         Result = gp_EnsureArcCapacity(theGraph, newArcCapacity);
 
         if (Result != OK)
-- 
2.43.0


From 45097ffb43294af211b91e2b2b017a47c0b55de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:47 +0000
Subject: [PATCH 06/60] fix: _EnsureArcCapacity() must keep the edge array when
 its reallocation fails

---
 c/graphLib/graphUtils.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index e4b572e..ec7019b 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -424,6 +424,7 @@ int gp_EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
 int _EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
 {
     stackP newStack;
+    edgeRecP newE;
     int e, Esize = gp_EdgeIndexBound(theGraph),
            newEsize = gp_GetFirstEdge(theGraph) + requiredArcCapacity;
 
@@ -467,9 +468,10 @@ int _EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
     theGraph->edgeHoles = newStack;
 
     // Reallocate the edgeRec array to the new size,
-    theGraph->E = (edgeRecP)realloc(theGraph->E, newEsize * sizeof(edgeRec));
-    if (theGraph->E == NULL)
+    newE = (edgeRecP)realloc(theGraph->E, newEsize * sizeof(edgeRec));
+    if (newE == NULL)
         return NOTOK;
+    theGraph->E = newE;
 
     // Initialize the new edge records
     for (e = Esize; e < newEsize; e++)
-- 
2.43.0


From 4830ef3bb7812fc471804fc5e82fb216d4f547c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:25 +0000
Subject: [PATCH 07/60] fix: gp_CopyGraph() must clear surplus edge records of
 the destination

---
 c/graphLib/graphUtils.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index ec7019b..bc5411c 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1002,6 +1002,10 @@ int gp_CopyGraph(graphP dstGraph, graphP srcGraph)
     for (e = gp_GetFirstEdge(theGraph); e < Esize; e++)
         gp_CopyEdgeRec(dstGraph, e, srcGraph, e);
 
+    // Clear the edge records of dstGraph that srcGraph does not have
+    for (; e < gp_EdgeIndexBound(dstGraph); e++)
+        _InitEdgeRec(dstGraph, e);
+
     // Give the dstGraph the same size and intrinsic properties
     dstGraph->N = srcGraph->N;
     dstGraph->NV = srcGraph->NV;
-- 
2.43.0


From 2e48015270cab90c996f13134a36a8565970f41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:25 +0000
Subject: [PATCH 08/60] fix: gp_CreateRandomGraphEx() must not wait for more
 edges than a complete graph has

---
 c/graphLib/graphUtils.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index bc5411c..9a1b46d 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1239,6 +1239,9 @@ int gp_CreateRandomGraphEx(graphP theGraph, int numEdges)
     if (numEdges > theGraph->arcCapacity / 2)
         numEdges = theGraph->arcCapacity / 2;
 
+    if (numEdges > (long long)N * (N - 1) / 2)
+        numEdges = (int)((long long)N * (N - 1) / 2);
+
     /* Generate a random tree. */
 
     for (v = gp_GetFirstVertex(theGraph) + 1; gp_VertexInRange(theGraph, v); v++)
-- 
2.43.0


From f6b1a5732f8415efc46047c0b13c3a3d3510e756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:27 +0000
Subject: [PATCH 09/60] fix: gp_CopyGraph() must report a failure to copy the
 stack contents

---
 c/graphLib/graphUtils.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 9a1b46d..9f542fc 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1017,8 +1017,11 @@ int gp_CopyGraph(graphP dstGraph, graphP srcGraph)
 
     LCCopy(dstGraph->BicompRootLists, srcGraph->BicompRootLists);
     LCCopy(dstGraph->sortedDFSChildLists, srcGraph->sortedDFSChildLists);
-    sp_Copy(dstGraph->theStack, srcGraph->theStack);
-    sp_Copy(dstGraph->edgeHoles, srcGraph->edgeHoles);
+    if (sp_Copy(dstGraph->theStack, srcGraph->theStack) != OK ||
+        sp_Copy(dstGraph->edgeHoles, srcGraph->edgeHoles) != OK)
+    {
+        return NOTOK;
+    }
 
     // Copy the set of extensions, which includes copying the
     // extension data as well as the function overload tables
-- 
2.43.0


From f7d2262e2790247b13db17234eaa8ced9f36e2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:27 +0000
Subject: [PATCH 10/60] fix: gp_LeastAncestor() must clear the visited flags
 before its traversal

---
 c/graphLib/graphDFSUtils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/graphLib/graphDFSUtils.c b/c/graphLib/graphDFSUtils.c
index 997952f..60f6707 100644
--- a/c/graphLib/graphDFSUtils.c
+++ b/c/graphLib/graphDFSUtils.c
@@ -405,6 +405,8 @@ int gp_LeastAncestor(graphP theGraph)
 
     sp_ClearStack(theStack);
 
+    _ClearVertexVisitedFlags(theGraph, FALSE);
+
     // This outer loop causes the connected subgraphs of a disconnected graph to be processed
     for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v);)
     {
-- 
2.43.0


From e4eb1d5309ddd8c82e493060c2e14f8a45a0965d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:46 +0000
Subject: [PATCH 11/60] fix: sb_TakeString() must reset the read position and
 survive an allocation failure

---
 c/graphLib/io/strbuf.c | 498 +++++++++++++++++++++--------------------
 1 file changed, 251 insertions(+), 247 deletions(-)

diff --git a/c/graphLib/io/strbuf.c b/c/graphLib/io/strbuf.c
index 1ab64a6..2e8b338 100644
--- a/c/graphLib/io/strbuf.c
+++ b/c/graphLib/io/strbuf.c
@@ -1,247 +1,251 @@
-/*
-Copyright (c) 1997-2022, John M. Boyer
-All rights reserved.
-See the LICENSE.TXT file for licensing information.
-*/
-
-#include "../lowLevelUtils/appconst.h"
-#include "strbuf.h"
-#include <stdlib.h>
-#include <ctype.h>
-
-/********************************************************************
- sb_New()
- Allocates a string buffer with space for capacity characters, plus one
- for a null terminator
-
- Returns the allocated string buffer, or NULL on error.
- ********************************************************************/
-strBufP sb_New(int capacity)
-{
-    strBufP theStrBuf;
-
-    if (capacity < 0)
-        return NULL;
-
-    theStrBuf = (strBufP)malloc(sizeof(strBuf));
-
-    if (theStrBuf != NULL)
-    {
-        theStrBuf->buf = (char *)malloc((capacity + 1) * sizeof(char));
-        if (theStrBuf->buf == NULL)
-        {
-            free(theStrBuf);
-            theStrBuf = NULL;
-        }
-    }
-
-    if (theStrBuf != NULL)
-    {
-        theStrBuf->capacity = capacity;
-        sb_ClearBuf(theStrBuf);
-    }
-
-    return theStrBuf;
-}
-
-/********************************************************************
- sb_Free()
- Receives a pointer-pointer to a string buffer.
- Frees the memory of the string buffer structure and the string buffer
- it contains. Using the pointer-pointer, sets the pointer to NULL.
- ********************************************************************/
-void sb_Free(strBufP *pStrBuf)
-{
-    if (pStrBuf != NULL && *pStrBuf != NULL)
-    {
-        (*pStrBuf)->capacity = (*pStrBuf)->size = (*pStrBuf)->readPos = 0;
-
-        if ((*pStrBuf)->buf != NULL)
-            free((*pStrBuf)->buf);
-        (*pStrBuf)->buf = NULL;
-
-        free(*pStrBuf);
-        *pStrBuf = NULL;
-    }
-}
-
-/********************************************************************
- sb_CleareBuf()
- The string buffer is changed, if not NULL, to hold an empty string,
- including setting the size and position to 0. The capacity is not
- changed.
- ********************************************************************/
-void sb_ClearBuf(strBufP theStrBuf)
-{
-    if (theStrBuf != NULL)
-    {
-        if (theStrBuf->buf != NULL)
-            theStrBuf->buf[0] = '\0';
-        theStrBuf->size = theStrBuf->readPos = 0;
-    }
-}
-
-/********************************************************************
- sb_Copy()
- Receives strBuf pointers for a destination and source.
- Ensures that the destination has the capacity of the source.
- Copies the source string content into the destination, and sets the
- size correctly.
- Returns OK for success, NOTOK on param or memory allocation error.
- ********************************************************************/
-int sb_Copy(strBufP strBufDst, strBufP strBufSrc)
-{
-    char *tempBuf;
-    strBufP newStrBuf = sb_Duplicate(strBufSrc);
-
-    if (strBufDst == NULL || strBufSrc == NULL || newStrBuf == NULL)
-    {
-        sb_Free(&newStrBuf);
-        return NOTOK;
-    }
-
-    tempBuf = strBufDst->buf;
-    strBufDst->buf = newStrBuf->buf;
-    newStrBuf->buf = tempBuf;
-
-    sb_Free(&newStrBuf);
-
-    strBufDst->size = strBufSrc->size;
-    strBufDst->capacity = strBufSrc->capacity;
-
-    return OK;
-}
-
-/********************************************************************
- sb_Duplicate()
- Receives a strBuf pointer. Allocates a new strBuf structure with the
- same capacity, and initially clears it. If the received strBuf has
- a non-empty string, then it is copied into the duplicate, and
- the duplicates size is set correctly.
- Returns the duplicate, or NULL on memory allocation error.
- ********************************************************************/
-strBufP sb_Duplicate(strBufP theStrBuf)
-{
-    strBufP newStrBuf = sb_New(theStrBuf->capacity);
-
-    if (newStrBuf == NULL)
-        return NULL;
-
-    if (theStrBuf->size > 0)
-    {
-        strcpy(newStrBuf->buf, theStrBuf->buf);
-        newStrBuf->size = theStrBuf->size;
-    }
-
-    return newStrBuf;
-}
-
-/********************************************************************
- sb_ReadSkipWhitespace()
- Advances the read position managed by the string buffer by skipping
- any number of whitespace characters, if present.
- ********************************************************************/
-
-void sb_ReadSkipWhitespace(strBufP theStrBuf)
-{
-    if (theStrBuf != NULL && theStrBuf->buf != NULL)
-    {
-        while (isspace(theStrBuf->buf[theStrBuf->readPos]))
-            theStrBuf->readPos++;
-    }
-}
-
-/********************************************************************
- sb_ReadSkipInteger()
- Advances the read position managed by the string buffer by skipping
- an initial negative sign, if present, then skipping any number of
- numeric digits, if present.
- ********************************************************************/
-void sb_ReadSkipInteger(strBufP theStrBuf)
-{
-    if (theStrBuf != NULL && theStrBuf->buf != NULL)
-    {
-        if (theStrBuf->buf[theStrBuf->readPos] == '-')
-            theStrBuf->readPos++;
-
-        while (isdigit(theStrBuf->buf[theStrBuf->readPos]))
-            theStrBuf->readPos++;
-    }
-}
-
-/********************************************************************
- sb_ConcatString()
- Appends the content of string s to the end of the content already
- in the string buffer. If the append would exceed the capacity of
- the buffer, then the buffer capacity is first increased. It is
- increased to one greater than the sum of the current capacity and the
- new string size or double the capacity (to ensure the memory space is
- big enough for both strings and linear time performance over many
- small concatenations).
- Returns OK on success, NOTOK on error
- ********************************************************************/
-int sb_ConcatString(strBufP theStrBuf, char *s)
-{
-    int slen = s == NULL ? 0 : strlen(s);
-
-    if (slen == 0)
-        return OK;
-
-    if (theStrBuf == NULL || theStrBuf->buf == NULL)
-        return NOTOK;
-
-    if (theStrBuf->size + slen > theStrBuf->capacity)
-    {
-        int newLen = theStrBuf->size + slen > 2 * theStrBuf->capacity ? theStrBuf->size + slen : 2 * theStrBuf->capacity;
-        char *newBuf = (char *)malloc((newLen + 1) * sizeof(char));
-
-        if (newBuf == NULL)
-            return NOTOK;
-
-        strcpy(newBuf, theStrBuf->buf);
-        free(theStrBuf->buf);
-        theStrBuf->buf = newBuf;
-        theStrBuf->capacity = newLen;
-    }
-
-    strcpy(theStrBuf->buf + theStrBuf->size, s);
-    theStrBuf->size += slen;
-
-    return OK;
-}
-
-/********************************************************************
- sb_ConcatChar()
- Converts ch into a one-character string containing ch, then invokes
- sb_ConcatStr().
- Returns Same as sb_ConcatStr()
- ********************************************************************/
-int sb_ConcatChar(strBufP theStrBuf, char ch)
-{
-    char s[2];
-    s[0] = ch;
-    s[1] = '\0';
-    return sb_ConcatString(theStrBuf, s);
-}
-
-/********************************************************************
- sb_TakeString()
- Extracts the buffer string from the received string buffer and
- returns it. The string buffer is changed to contain a zero length
- string, so that the buffer can be reused or freed with sb_Free().
- Returns NULL on error or a string to be freed by the caller on success.
- ********************************************************************/
-char *sb_TakeString(strBufP theStrBuf)
-{
-    char *theBuf = NULL;
-
-    if (theStrBuf == NULL)
-        return NULL;
-
-    theBuf = theStrBuf->buf;
-    theStrBuf->buf = (char *)malloc(sizeof(char));
-    theStrBuf->buf[0] = '\0';
-    theStrBuf->size = theStrBuf->capacity = 0;
-
-    return theBuf;
-}
+/*
+Copyright (c) 1997-2022, John M. Boyer
+All rights reserved.
+See the LICENSE.TXT file for licensing information.
+*/
+
+#include "../lowLevelUtils/appconst.h"
+#include "strbuf.h"
+#include <stdlib.h>
+#include <ctype.h>
+
+/********************************************************************
+ sb_New()
+ Allocates a string buffer with space for capacity characters, plus one
+ for a null terminator
+
+ Returns the allocated string buffer, or NULL on error.
+ ********************************************************************/
+strBufP sb_New(int capacity)
+{
+    strBufP theStrBuf;
+
+    if (capacity < 0)
+        return NULL;
+
+    theStrBuf = (strBufP)malloc(sizeof(strBuf));
+
+    if (theStrBuf != NULL)
+    {
+        theStrBuf->buf = (char *)malloc((capacity + 1) * sizeof(char));
+        if (theStrBuf->buf == NULL)
+        {
+            free(theStrBuf);
+            theStrBuf = NULL;
+        }
+    }
+
+    if (theStrBuf != NULL)
+    {
+        theStrBuf->capacity = capacity;
+        sb_ClearBuf(theStrBuf);
+    }
+
+    return theStrBuf;
+}
+
+/********************************************************************
+ sb_Free()
+ Receives a pointer-pointer to a string buffer.
+ Frees the memory of the string buffer structure and the string buffer
+ it contains. Using the pointer-pointer, sets the pointer to NULL.
+ ********************************************************************/
+void sb_Free(strBufP *pStrBuf)
+{
+    if (pStrBuf != NULL && *pStrBuf != NULL)
+    {
+        (*pStrBuf)->capacity = (*pStrBuf)->size = (*pStrBuf)->readPos = 0;
+
+        if ((*pStrBuf)->buf != NULL)
+            free((*pStrBuf)->buf);
+        (*pStrBuf)->buf = NULL;
+
+        free(*pStrBuf);
+        *pStrBuf = NULL;
+    }
+}
+
+/********************************************************************
+ sb_CleareBuf()
+ The string buffer is changed, if not NULL, to hold an empty string,
+ including setting the size and position to 0. The capacity is not
+ changed.
+ ********************************************************************/
+void sb_ClearBuf(strBufP theStrBuf)
+{
+    if (theStrBuf != NULL)
+    {
+        if (theStrBuf->buf != NULL)
+            theStrBuf->buf[0] = '\0';
+        theStrBuf->size = theStrBuf->readPos = 0;
+    }
+}
+
+/********************************************************************
+ sb_Copy()
+ Receives strBuf pointers for a destination and source.
+ Ensures that the destination has the capacity of the source.
+ Copies the source string content into the destination, and sets the
+ size correctly.
+ Returns OK for success, NOTOK on param or memory allocation error.
+ ********************************************************************/
+int sb_Copy(strBufP strBufDst, strBufP strBufSrc)
+{
+    char *tempBuf;
+    strBufP newStrBuf = sb_Duplicate(strBufSrc);
+
+    if (strBufDst == NULL || strBufSrc == NULL || newStrBuf == NULL)
+    {
+        sb_Free(&newStrBuf);
+        return NOTOK;
+    }
+
+    tempBuf = strBufDst->buf;
+    strBufDst->buf = newStrBuf->buf;
+    newStrBuf->buf = tempBuf;
+
+    sb_Free(&newStrBuf);
+
+    strBufDst->size = strBufSrc->size;
+    strBufDst->capacity = strBufSrc->capacity;
+
+    return OK;
+}
+
+/********************************************************************
+ sb_Duplicate()
+ Receives a strBuf pointer. Allocates a new strBuf structure with the
+ same capacity, and initially clears it. If the received strBuf has
+ a non-empty string, then it is copied into the duplicate, and
+ the duplicates size is set correctly.
+ Returns the duplicate, or NULL on memory allocation error.
+ ********************************************************************/
+strBufP sb_Duplicate(strBufP theStrBuf)
+{
+    strBufP newStrBuf = sb_New(theStrBuf->capacity);
+
+    if (newStrBuf == NULL)
+        return NULL;
+
+    if (theStrBuf->size > 0)
+    {
+        strcpy(newStrBuf->buf, theStrBuf->buf);
+        newStrBuf->size = theStrBuf->size;
+    }
+
+    return newStrBuf;
+}
+
+/********************************************************************
+ sb_ReadSkipWhitespace()
+ Advances the read position managed by the string buffer by skipping
+ any number of whitespace characters, if present.
+ ********************************************************************/
+
+void sb_ReadSkipWhitespace(strBufP theStrBuf)
+{
+    if (theStrBuf != NULL && theStrBuf->buf != NULL)
+    {
+        while (isspace(theStrBuf->buf[theStrBuf->readPos]))
+            theStrBuf->readPos++;
+    }
+}
+
+/********************************************************************
+ sb_ReadSkipInteger()
+ Advances the read position managed by the string buffer by skipping
+ an initial negative sign, if present, then skipping any number of
+ numeric digits, if present.
+ ********************************************************************/
+void sb_ReadSkipInteger(strBufP theStrBuf)
+{
+    if (theStrBuf != NULL && theStrBuf->buf != NULL)
+    {
+        if (theStrBuf->buf[theStrBuf->readPos] == '-')
+            theStrBuf->readPos++;
+
+        while (isdigit(theStrBuf->buf[theStrBuf->readPos]))
+            theStrBuf->readPos++;
+    }
+}
+
+/********************************************************************
+ sb_ConcatString()
+ Appends the content of string s to the end of the content already
+ in the string buffer. If the append would exceed the capacity of
+ the buffer, then the buffer capacity is first increased. It is
+ increased to one greater than the sum of the current capacity and the
+ new string size or double the capacity (to ensure the memory space is
+ big enough for both strings and linear time performance over many
+ small concatenations).
+ Returns OK on success, NOTOK on error
+ ********************************************************************/
+int sb_ConcatString(strBufP theStrBuf, char *s)
+{
+    int slen = s == NULL ? 0 : strlen(s);
+
+    if (slen == 0)
+        return OK;
+
+    if (theStrBuf == NULL || theStrBuf->buf == NULL)
+        return NOTOK;
+
+    if (theStrBuf->size + slen > theStrBuf->capacity)
+    {
+        int newLen = theStrBuf->size + slen > 2 * theStrBuf->capacity ? theStrBuf->size + slen : 2 * theStrBuf->capacity;
+        char *newBuf = (char *)malloc((newLen + 1) * sizeof(char));
+
+        if (newBuf == NULL)
+            return NOTOK;
+
+        strcpy(newBuf, theStrBuf->buf);
+        free(theStrBuf->buf);
+        theStrBuf->buf = newBuf;
+        theStrBuf->capacity = newLen;
+    }
+
+    strcpy(theStrBuf->buf + theStrBuf->size, s);
+    theStrBuf->size += slen;
+
+    return OK;
+}
+
+/********************************************************************
+ sb_ConcatChar()
+ Converts ch into a one-character string containing ch, then invokes
+ sb_ConcatStr().
+ Returns Same as sb_ConcatStr()
+ ********************************************************************/
+int sb_ConcatChar(strBufP theStrBuf, char ch)
+{
+    char s[2];
+    s[0] = ch;
+    s[1] = '\0';
+    return sb_ConcatString(theStrBuf, s);
+}
+
+/********************************************************************
+ sb_TakeString()
+ Extracts the buffer string from the received string buffer and
+ returns it. The string buffer is changed to contain a zero length
+ string, so that the buffer can be reused or freed with sb_Free().
+ Returns NULL on error or a string to be freed by the caller on success.
+ ********************************************************************/
+char *sb_TakeString(strBufP theStrBuf)
+{
+    char *theBuf = NULL;
+
+    if (theStrBuf == NULL)
+        return NULL;
+
+    char *newBuf = (char *)malloc(sizeof(char));
+    if (newBuf == NULL)
+        return NULL;
+
+    theBuf = theStrBuf->buf;
+    theStrBuf->buf = newBuf;
+    theStrBuf->buf[0] = '\0';
+    theStrBuf->size = theStrBuf->capacity = theStrBuf->readPos = 0;
+
+    return theBuf;
+}
-- 
2.43.0


From 0312498df768687f44685173c39a8a5f8efd0804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:46 +0000
Subject: [PATCH 12/60] fix: sb_Copy() must reset the read position and reject
 a NULL source

---
 c/graphLib/io/strbuf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/io/strbuf.c b/c/graphLib/io/strbuf.c
index 2e8b338..7807c51 100644
--- a/c/graphLib/io/strbuf.c
+++ b/c/graphLib/io/strbuf.c
@@ -108,6 +108,7 @@ int sb_Copy(strBufP strBufDst, strBufP strBufSrc)
 
     strBufDst->size = strBufSrc->size;
     strBufDst->capacity = strBufSrc->capacity;
+    strBufDst->readPos = 0;
 
     return OK;
 }
@@ -122,7 +123,7 @@ int sb_Copy(strBufP strBufDst, strBufP strBufSrc)
  ********************************************************************/
 strBufP sb_Duplicate(strBufP theStrBuf)
 {
-    strBufP newStrBuf = sb_New(theStrBuf->capacity);
+    strBufP newStrBuf = theStrBuf == NULL ? NULL : sb_New(theStrBuf->capacity);
 
     if (newStrBuf == NULL)
         return NULL;
-- 
2.43.0


From c4503ff66f56e04034bc7b1308059d41731461d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:46 +0000
Subject: [PATCH 13/60] fix: sf_fgets() must not write before the buffer when
 count is zero

---
 c/graphLib/io/strOrFile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/graphLib/io/strOrFile.c b/c/graphLib/io/strOrFile.c
index 314e315..5fc5183 100644
--- a/c/graphLib/io/strOrFile.c
+++ b/c/graphLib/io/strOrFile.c
@@ -113,7 +113,7 @@ char sf_ungetc(char theChar, strOrFileP theStrOrFile)
  ********************************************************************/
 char *sf_fgets(char *str, int count, strOrFileP theStrOrFile)
 {
-	if (str == NULL || count < 0 || theStrOrFile == NULL)
+	if (str == NULL || count <= 0 || theStrOrFile == NULL)
 		return NULL;
 
 	if (theStrOrFile->pFile != NULL)
-- 
2.43.0


From 9b32a752d88149269b677d1f8ac63c719f409318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:04 +0000
Subject: [PATCH 14/60] fix: _ReadGraphFromG6*() must report a failure to read
 the graph

---
 c/graphLib/io/g6-read-iterator.c | 51 +++++++++++++++++---------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index 55759f4..152dfe2 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -744,9 +744,7 @@ int _ReadGraphFromG6FilePath(graphP pGraphToRead, char *pathToG6File)
 	{
 		ErrorMessage("Unable to begin .g6 read iteration.\n");
 
-		exitCode = freeG6ReadIterator(&pG6ReadIterator);
-
-		if (exitCode != OK)
+		if (freeG6ReadIterator(&pG6ReadIterator) != OK)
 			ErrorMessage("Unable to free G6ReadIterator.\n");
 
 		return exitCode;
@@ -756,14 +754,17 @@ int _ReadGraphFromG6FilePath(graphP pGraphToRead, char *pathToG6File)
 	if (exitCode != OK)
 		ErrorMessage("Unable to read graph from .g6 read iterator.\n");
 
-	exitCode = endG6ReadIteration(pG6ReadIterator);
-	if (exitCode != OK)
+	if (endG6ReadIteration(pG6ReadIterator) != OK)
+	{
 		ErrorMessage("Unable to end G6ReadIterator.\n");
-	
-	exitCode = freeG6ReadIterator(&pG6ReadIterator);
+		exitCode = NOTOK;
+	}
 
-	if (exitCode != OK)
+	if (freeG6ReadIterator(&pG6ReadIterator) != OK)
+	{
 		ErrorMessage("Unable to free G6ReadIterator.\n");
+		exitCode = NOTOK;
+	}
 
 	return exitCode;
 }
@@ -790,9 +791,7 @@ int _ReadGraphFromG6FilePointer(graphP pGraphToRead, FILE *g6Infile)
 	{
 		ErrorMessage("Unable to begin .g6 read iteration.\n");
 
-		exitCode = freeG6ReadIterator(&pG6ReadIterator);
-
-		if (exitCode != OK)
+		if (freeG6ReadIterator(&pG6ReadIterator) != OK)
 			ErrorMessage("Unable to free G6ReadIterator.\n");
 
 		return exitCode;
@@ -802,14 +801,17 @@ int _ReadGraphFromG6FilePointer(graphP pGraphToRead, FILE *g6Infile)
 	if (exitCode != OK)
 		ErrorMessage("Unable to read graph from .g6 read iterator.\n");
 
-	exitCode = endG6ReadIteration(pG6ReadIterator);
-	if (exitCode != OK)
+	if (endG6ReadIteration(pG6ReadIterator) != OK)
+	{
 		ErrorMessage("Unable to end G6ReadIterator.\n");
-	
-	exitCode = freeG6ReadIterator(&pG6ReadIterator);
+		exitCode = NOTOK;
+	}
 
-	if (exitCode != OK)
+	if (freeG6ReadIterator(&pG6ReadIterator) != OK)
+	{
 		ErrorMessage("Unable to free G6ReadIterator.\n");
+		exitCode = NOTOK;
+	}
 
 	return exitCode;
 }
@@ -839,9 +841,7 @@ int _ReadGraphFromG6String(graphP pGraphToRead, char *g6EncodedString)
 	{
 		ErrorMessage("Unable to begin .g6 read iteration.\n");
 
-		exitCode = freeG6ReadIterator(&pG6ReadIterator);
-
-		if (exitCode != OK)
+		if (freeG6ReadIterator(&pG6ReadIterator) != OK)
 			ErrorMessage("Unable to free G6ReadIterator.\n");
 
 		return exitCode;
@@ -851,14 +851,17 @@ int _ReadGraphFromG6String(graphP pGraphToRead, char *g6EncodedString)
 	if (exitCode != OK)
 		ErrorMessage("Unable to read graph from .g6 read iterator.\n");
 
-	exitCode = endG6ReadIteration(pG6ReadIterator);
-	if (exitCode != OK)
+	if (endG6ReadIteration(pG6ReadIterator) != OK)
+	{
 		ErrorMessage("Unable to end G6ReadIterator.\n");
-	
-	exitCode = freeG6ReadIterator(&pG6ReadIterator);
+		exitCode = NOTOK;
+	}
 
-	if (exitCode != OK)
+	if (freeG6ReadIterator(&pG6ReadIterator) != OK)
+	{
 		ErrorMessage("Unable to free G6ReadIterator.\n");
+		exitCode = NOTOK;
+	}
 
 	return exitCode;
 }
-- 
2.43.0


From 3095c1437ec84a4131719c35064ce578d4a5fdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:04 +0000
Subject: [PATCH 15/60] fix: allocateG6ReadIterator() and
 allocateG6WriteIterator() must fail when there is no usable graph

---
 c/graphLib/io/g6-read-iterator.c  | 4 ++--
 c/graphLib/io/g6-write-iterator.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index 152dfe2..c9e26bf 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -37,9 +37,9 @@ int allocateG6ReadIterator(G6ReadIterator **ppG6ReadIterator, graphP pGraph)
 	{
 		ErrorMessage("Must allocate graph to be used by G6ReadIterator.\n");
 
-		exitCode = freeG6ReadIterator(ppG6ReadIterator);
+		exitCode = NOTOK;
 
-		if (exitCode != OK)
+		if (freeG6ReadIterator(ppG6ReadIterator) != OK)
 			ErrorMessage("Unable to free the G6ReadIterator.\n");
 	}
 	else
diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index 44f0691..a05f171 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -39,9 +39,9 @@ int allocateG6WriteIterator(G6WriteIterator **ppG6WriteIterator, graphP pGraph)
 	{
 		ErrorMessage("[ERROR] Must allocate and initialize graph with an order greater than 0 to use the G6WriteIterator.\n");
 
-		exitCode = freeG6WriteIterator(ppG6WriteIterator);
+		exitCode = NOTOK;
 
-		if (exitCode != OK)
+		if (freeG6WriteIterator(ppG6WriteIterator) != OK)
 			ErrorMessage("Unable to free the G6WriteIterator.\n");
 	}
 	else
-- 
2.43.0


From 3e8b1185c2d4e624b304873710a5909e171329a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:04 +0000
Subject: [PATCH 16/60] fix: _encodeAdjMatAsG6() must encode the order of a
 graph with one vertex

---
 c/graphLib/io/g6-write-iterator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index a05f171..54f3577 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -323,7 +323,7 @@ int _encodeAdjMatAsG6(G6WriteIterator *pG6WriteIterator) {
 			g6Encoding[3 - i] = intermediate & 63;
 			g6Encoding[3 - i] += 63;
 		}
-	} else if (graphOrder > 1 && graphOrder < 63) {
+	} else if (graphOrder > 0 && graphOrder < 63) {
 		g6Encoding[0] = graphOrder + 63;
 	}
 
-- 
2.43.0


From db0b30aec7704ed1601b17b1ea73eebe1d4b1a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:04 +0000
Subject: [PATCH 17/60] fix: _validateGraphEncoding() must not read before an
 empty graph encoding

---
 c/graphLib/io/g6-read-iterator.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index c9e26bf..725c55b 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -587,7 +587,8 @@ int _validateGraphEncoding(char *graphBuff, const int graphOrder, const int numC
 	// Check that there are no extraneous bits in representation (since we pad out to a
 	// multiple of 6 before splitting into bytes and adding 63 to each byte)
 	int expectedNumPaddingZeroes = _getExpectedNumPaddingZeroes(graphOrder, numChars);
-	char finalByte = graphBuff[numChars - 1] - 63;
+	// (a graph with one vertex has no encoding characters, and so no final byte nor padding)
+	char finalByte = numChars > 0 ? graphBuff[numChars - 1] - 63 : 0;
 	int numPaddingZeroes = 0;
 	for (int i = 0; i < expectedNumPaddingZeroes; i++)
 	{
-- 
2.43.0


From e6ec860af12eb32b84a2fa6754f61957812b483d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:04 +0000
Subject: [PATCH 18/60] fix: readGraphUsingG6ReadIterator() must reject input
 that ends after the first graph's order

---
 c/graphLib/io/g6-read-iterator.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index 725c55b..933b211 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -506,6 +506,18 @@ int readGraphUsingG6ReadIterator(G6ReadIterator *pG6ReadIterator)
 		
 		pG6ReadIterator->numGraphsRead = numGraphsRead;
 	}
+	else if (numGraphsRead == 0)
+	{
+		// The order of the first graph has already been processed, so its encoding must
+		// follow, except that the encoding for a graph with one vertex has no characters.
+		if (numCharsForGraphEncoding > 0)
+		{
+			ErrorMessage("The encoding of the first graph is missing.\n");
+			return NOTOK;
+		}
+
+		pG6ReadIterator->numGraphsRead = 1;
+	}
 	else
 		pG6ReadIterator->currGraph = NULL;
 
-- 
2.43.0


From 68cedf93fdbf79ba0d022252150c562e7bd8ec92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:05 +0000
Subject: [PATCH 19/60] fix: _getGraphOrder() and _checkGraphOrder() must
 reject invalid order characters

---
 c/graphLib/io/g6-read-iterator.c | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index 933b211..7b9337b 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -377,8 +377,14 @@ int _getGraphOrder(strOrFileP g6Input, int *graphOrder)
 
 		for (int i = 2; i >= 0; i--)
 		{
-			graphChar = sf_getc(g6Input) - 63;
-			n |= graphChar << (6 * i);
+			graphChar = sf_getc(g6Input);
+			if (graphChar < 63 || graphChar > 126)
+			{
+				ErrorMessage("Invalid character in graph order.\n");
+				return NOTOK;
+			}
+
+			n |= (graphChar - 63) << (6 * i);
 		}
 
 		if (n > 100000)
@@ -537,16 +543,26 @@ int _checkGraphOrder(char *graphBuff, int graphOrder)
 			ErrorMessage("Can only handle graphs of order <= 100,000.\n");
 			return NOTOK;
 		}
-		else if (graphBuff[1] > 126)
-		{
-			ErrorMessage("Invalid graph order signifier.\n");
-			return NOTOK;
-		}
 
 		int orderCharIndex = 2;
 
 		for (int i = 1; i < 4; i++)
+		{
+			if (graphBuff[i] < 63 || graphBuff[i] > 126)
+			{
+				ErrorMessage("Invalid graph order signifier.\n");
+				return NOTOK;
+			}
+
 			n |= (graphBuff[i] - 63) << (6 * orderCharIndex--);
+		}
+
+		// The graph encoding is only at the expected offset if the order needs 4 bytes
+		if (n < 63)
+		{
+			ErrorMessage("Invalid 4 byte form of a small graph order.\n");
+			return NOTOK;
+		}
 	}
 	else if (currChar > 62 && currChar < 126)
 		n = currChar - 63;
-- 
2.43.0


From ab9ff51a32eec522750399e43d538d4a824e5a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:05 +0000
Subject: [PATCH 20/60] fix: graph6 size calculations must not overflow for the
 supported graph orders

---
 c/graphLib/io/g6-api-utilities.c  | 13 +++++++------
 c/graphLib/io/g6-api-utilities.h  |  2 +-
 c/graphLib/io/g6-write-iterator.c | 10 +++++-----
 c/graphLib/io/g6-write-iterator.h |  4 ++--
 4 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/c/graphLib/io/g6-api-utilities.c b/c/graphLib/io/g6-api-utilities.c
index 99d6c3e..d3bad53 100644
--- a/c/graphLib/io/g6-api-utilities.c
+++ b/c/graphLib/io/g6-api-utilities.c
@@ -6,16 +6,17 @@ See the LICENSE.TXT file for licensing information.
 
 #include "g6-api-utilities.h"
 
-int _getMaxEdgeCount(int graphOrder)
+// The result exceeds the limits of an int for the larger supported graph orders
+long long _getMaxEdgeCount(int graphOrder)
 {
-	return (graphOrder * (graphOrder - 1)) / 2;
+	return ((long long) graphOrder * (graphOrder - 1)) / 2;
 }
 
 int _getNumCharsForGraphEncoding(int graphOrder)
 {
-	int maxNumEdges = _getMaxEdgeCount(graphOrder);
+	long long maxNumEdges = _getMaxEdgeCount(graphOrder);
 
-	return (maxNumEdges / 6) + (maxNumEdges % 6 ? 1 : 0);
+	return (int) (maxNumEdges / 6) + (maxNumEdges % 6 ? 1 : 0);
 }
 
 int _getNumCharsForGraphOrder(int graphOrder)
@@ -31,8 +32,8 @@ int _getNumCharsForGraphOrder(int graphOrder)
 
 int _getExpectedNumPaddingZeroes(const int graphOrder, const int numChars)
 {
-	int maxNumEdges = _getMaxEdgeCount(graphOrder);
-	int expectedNumPaddingZeroes = numChars * 6 - maxNumEdges;
+	long long maxNumEdges = _getMaxEdgeCount(graphOrder);
+	int expectedNumPaddingZeroes = (int) (numChars * 6LL - maxNumEdges);
 
 	return expectedNumPaddingZeroes;
 }
diff --git a/c/graphLib/io/g6-api-utilities.h b/c/graphLib/io/g6-api-utilities.h
index ae6de29..78c2d89 100644
--- a/c/graphLib/io/g6-api-utilities.h
+++ b/c/graphLib/io/g6-api-utilities.h
@@ -11,7 +11,7 @@ See the LICENSE.TXT file for licensing information.
 extern "C" {
 #endif
 
-int _getMaxEdgeCount(int);
+long long _getMaxEdgeCount(int);
 int _getNumCharsForGraphEncoding(int);
 int _getNumCharsForGraphOrder(int);
 int _getExpectedNumPaddingZeroes(const int, const int);
diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index 54f3577..eb56861 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -209,7 +209,7 @@ int _beginG6WriteIteration(G6WriteIterator *pG6WriteIterator)
 
 	pG6WriteIterator->graphOrder = pG6WriteIterator->currGraph->N;
 
-	pG6WriteIterator->columnOffsets = (int *) calloc(pG6WriteIterator->graphOrder + 1, sizeof(int));
+	pG6WriteIterator->columnOffsets = (long long *) calloc(pG6WriteIterator->graphOrder + 1, sizeof(long long));
 
 	if ( pG6WriteIterator->columnOffsets == NULL)
 	{
@@ -234,7 +234,7 @@ int _beginG6WriteIteration(G6WriteIterator *pG6WriteIterator)
 	return exitCode;
 }
 
-void _precomputeColumnOffsets(int *columnOffsets, int graphOrder)
+void _precomputeColumnOffsets(long long *columnOffsets, int graphOrder)
 {
 	if (columnOffsets == NULL)
 	{
@@ -290,7 +290,7 @@ int _encodeAdjMatAsG6(G6WriteIterator *pG6WriteIterator) {
 		return NOTOK;
 	}
 
-	int *columnOffsets = pG6WriteIterator->columnOffsets;
+	long long *columnOffsets = pG6WriteIterator->columnOffsets;
 	if (columnOffsets == NULL)
 	{
 		ErrorMessage("Column offsets array is not allocated.\n");
@@ -363,8 +363,8 @@ int _encodeAdjMatAsG6(G6WriteIterator *pG6WriteIterator) {
 		// bit to set in that byte by left-shifting 1 by (5 - ((columnOffsets[v] + u) % 6))
 		// (transforming the ((columnOffsets[v] + u) % 6)th bit from the left to the
 		// (5 - ((columnOffsets[v] + u) % 6))th bit from the right)
-		charOffset = numCharsForGraphOrder + ((columnOffsets[v] + u) / 6);
-		bitPositionPower = 5 - ((columnOffsets[v] + u) % 6);
+		charOffset = numCharsForGraphOrder + (int) ((columnOffsets[v] + u) / 6);
+		bitPositionPower = 5 - (int) ((columnOffsets[v] + u) % 6);
 
 		g6Encoding[charOffset] |= (1u << bitPositionPower);
 
diff --git a/c/graphLib/io/g6-write-iterator.h b/c/graphLib/io/g6-write-iterator.h
index b3314aa..6b88b0c 100644
--- a/c/graphLib/io/g6-write-iterator.h
+++ b/c/graphLib/io/g6-write-iterator.h
@@ -29,7 +29,7 @@ extern "C"
 		int currGraphBuffSize;
 		char *currGraphBuff;
 
-		int *columnOffsets;
+		long long *columnOffsets;
 
 		graphP currGraph;
 	} G6WriteIterator;
@@ -45,7 +45,7 @@ extern "C"
 	int beginG6WriteIterationToG6FilePointer(G6WriteIterator *pG6WriteIterator, FILE *g6Outfile);
 	int beginG6WriteIterationToG6String(G6WriteIterator *pG6WriteIterator, char **g6OutputStr);
 	int _beginG6WriteIteration(G6WriteIterator *pG6WriteIterator);
-	void _precomputeColumnOffsets(int *, int);
+	void _precomputeColumnOffsets(long long *, int);
 
 	int writeGraphUsingG6WriteIterator(G6WriteIterator *);
 
-- 
2.43.0


From 0f82e49ee20e357e41c50b6366d74a50273d0e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:05 +0000
Subject: [PATCH 21/60] fix: _WriteGraphToG6String() must survive allocation
 failures and not return a freed string

---
 c/graphLib/io/g6-write-iterator.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index eb56861..33ec63c 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -183,11 +183,24 @@ int beginG6WriteIterationToG6String(G6WriteIterator *pG6WriteIterator, char **g6
 	if ((*g6OutputStr) == NULL)
 	{
 		(*g6OutputStr) = (char *) malloc(1 * sizeof(char));
+
+		if ((*g6OutputStr) == NULL)
+		{
+			ErrorMessage("Unable to allocate memory for .g6 output string.\n");
+			return NOTOK;
+		}
+
 		(*g6OutputStr)[0] = '\0';
 	}
 
 	pG6WriteIterator->g6Output = sf_New(NULL, (*g6OutputStr));
 
+	if (pG6WriteIterator->g6Output == NULL)
+	{
+		ErrorMessage("Unable to allocate string-or-file container.\n");
+		return NOTOK;
+	}
+
 	exitCode = _beginG6WriteIteration(pG6WriteIterator);
 
 	if (exitCode != OK)
@@ -654,6 +667,11 @@ int _WriteGraphToG6String(graphP pGraph, char **g6OutputStr)
 	if (exitCode != OK)
 	{
 		ErrorMessage("Unable to begin G6 write iteration.\n");
+
+		// The string is freed along with the string-or-file container that owns it
+		if (pG6WriteIterator->g6Output != NULL)
+			(*g6OutputStr) = NULL;
+
 		freeG6WriteIterator(&pG6WriteIterator);
 		return exitCode;
 	}
@@ -661,7 +679,12 @@ int _WriteGraphToG6String(graphP pGraph, char **g6OutputStr)
 	exitCode = writeGraphUsingG6WriteIterator(pG6WriteIterator);
 
 	if (exitCode != OK)
+	{
 		ErrorMessage("Unable to write graph using G6WriteIterator.\n");
+
+		// The string is freed along with the string-or-file container that owns it
+		(*g6OutputStr) = NULL;
+	}
 	else
 	{
 		(*g6OutputStr) = sf_takeTheStr(pG6WriteIterator->g6Output);
-- 
2.43.0


From 505ae9001798e2d0a0c4eba1af993780825a5367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:05 +0000
Subject: [PATCH 22/60] fix: writeGraphUsingG6WriteIterator() must separate and
 count the graphs it writes

---
 c/graphLib/io/g6-write-iterator.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index 33ec63c..ddaa05f 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -279,9 +279,18 @@ int writeGraphUsingG6WriteIterator(G6WriteIterator *pG6WriteIterator)
 		return exitCode;
 	}
 
+	// Each graph is on a line of its own
+	if (pG6WriteIterator->numGraphsWritten > 0 && sf_fputs("\n", pG6WriteIterator->g6Output) < 0)
+	{
+		ErrorMessage("Unable to output the line separator to string-or-file container.\n");
+		return NOTOK;
+	}
+
 	exitCode = _printEncodedGraph(pG6WriteIterator);
 	if (exitCode != OK)
 		ErrorMessage("Unable to output g6 encoded graph to string-or-file container.\n");
+	else
+		pG6WriteIterator->numGraphsWritten++;
 
 	return exitCode;
 }
-- 
2.43.0


From 7f51b4f322c7a3f91f3bcac15691f946c128d755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:57 +0000
Subject: [PATCH 23/60] fix: sf_ungetc() must not put EOF into the string

---
 c/graphLib/io/strOrFile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/graphLib/io/strOrFile.c b/c/graphLib/io/strOrFile.c
index 5fc5183..e19ca36 100644
--- a/c/graphLib/io/strOrFile.c
+++ b/c/graphLib/io/strOrFile.c
@@ -86,7 +86,7 @@ char sf_ungetc(char theChar, strOrFileP theStrOrFile)
 		// Don't want to ungetc to an index before theStrOrFile->theStr start
 		else if (theStrOrFile->theStr != NULL)
 		{
-			if (theStrOrFile->theStrPos <= 0)
+			if (theStrOrFile->theStrPos <= 0 || theChar == EOF)
 				return EOF;
 
 			// Decrement theStrPos, then replace the character in theStr at that position with theChar
-- 
2.43.0


From 156ae9ffa1819c15d2224f79f4563bdacdcca901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:24 +0000
Subject: [PATCH 24/60] fix: _getGraphOrder() must not skip a character that
 cannot be put back

---
 c/graphLib/io/g6-read-iterator.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index 7b9337b..9d91bb6 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -373,7 +373,11 @@ int _getGraphOrder(strOrFileP g6Input, int *graphOrder)
 			return NOTOK;
 		}
 
-		sf_ungetc(graphChar, g6Input);
+		if (sf_ungetc(graphChar, g6Input) == EOF)
+		{
+			ErrorMessage("Invalid character in graph order.\n");
+			return NOTOK;
+		}
 
 		for (int i = 2; i >= 0; i--)
 		{
-- 
2.43.0


From c046326fee7470d38409d45e7f1d99df58a24130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:50 +0000
Subject: [PATCH 25/60] fix: _ReadGraphFromG6String() must not leak the string
 it consumes

---
 c/graphLib/io/g6-read-iterator.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index 9d91bb6..ebfc42f 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -856,6 +856,8 @@ int _ReadGraphFromG6String(graphP pGraphToRead, char *g6EncodedString)
 	if (g6EncodedString == NULL || strlen(g6EncodedString) == 0)
 	{
 		ErrorMessage("Input string is empty.\n");
+
+		free(g6EncodedString);
 		return NOTOK;
 	}
 
@@ -865,6 +867,8 @@ int _ReadGraphFromG6String(graphP pGraphToRead, char *g6EncodedString)
 	if (exitCode != OK)
 	{
 		ErrorMessage("Unable to allocate G6ReadIterator.\n");
+
+		free(g6EncodedString);
 		return exitCode;
 	}
 
@@ -874,6 +878,10 @@ int _ReadGraphFromG6String(graphP pGraphToRead, char *g6EncodedString)
 	{
 		ErrorMessage("Unable to begin .g6 read iteration.\n");
 
+		// The string must be freed here if no string-or-file container owns it yet
+		if (pG6ReadIterator->g6Input == NULL)
+			free(g6EncodedString);
+
 		if (freeG6ReadIterator(&pG6ReadIterator) != OK)
 			ErrorMessage("Unable to free G6ReadIterator.\n");
 
-- 
2.43.0


From 1bd8006e0f9db915d3e4d86e5612cc4166d6348c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:52 +0000
Subject: [PATCH 26/60] fix: _ReadAdjMatrix() must read one digit per flag and
 reject missing flags

---
 c/graphLib/io/graphIO.c | 2106 ++++++++++++++++++++-------------------
 1 file changed, 1055 insertions(+), 1051 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 3a0fed4..8c27f60 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -1,1051 +1,1055 @@
-/*
-Copyright (c) 1997-2022, John M. Boyer
-All rights reserved.
-See the LICENSE.TXT file for licensing information.
-*/
-
-#include <stdlib.h>
-#include <string.h>
-#include <ctype.h>
-
-#include "../graph.h"
-#include "g6-read-iterator.h"
-#include "g6-write-iterator.h"
-
-/* Private functions (exported to system) */
-
-int _ReadAdjMatrix(graphP theGraph, FILE *Infile, strBufP inBuf);
-int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf);
-int _WriteAdjList(graphP theGraph, FILE *Outfile, strBufP outBuf);
-int _WriteAdjMatrix(graphP theGraph, FILE *Outfile, strBufP outBuf);
-int _WriteDebugInfo(graphP theGraph, FILE *Outfile);
-
-/********************************************************************
- _ReadAdjMatrix()
- This function reads the undirected graph in upper triangular matrix format.
- Though O(N^2) time is required, this routine is useful during
- reliability testing due to the wealth of graph generating software
- that uses this format for output.
- Returns: OK, NOTOK on internal error, NONEMBEDDABLE if too many edges
- ********************************************************************/
-
-int _ReadAdjMatrix(graphP theGraph, FILE *Infile, strBufP inBuf)
-{
-    int N = -1;
-    int v, w, Flag;
-
-    if (Infile == NULL && inBuf == NULL)
-        return NOTOK;
-
-    // Read the number of vertices from the first line of the file
-    if (Infile != NULL)
-        fscanf(Infile, " %d ", &N);
-    else
-    {
-        sb_ReadSkipWhitespace(inBuf);
-        sscanf(sb_GetReadString(inBuf), " %d ", &N);
-        sb_ReadSkipInteger(inBuf);
-        sb_ReadSkipWhitespace(inBuf);
-    }
-
-    // Initialize the graph based on the number of vertices
-    if (gp_InitGraph(theGraph, N) != OK)
-        return NOTOK;
-
-    // Read an upper-triangular matrix row for each vertex
-    // Note that for the last vertex, zero flags are read, per the upper triangular format
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-    {
-        gp_SetVertexIndex(theGraph, v, v);
-        for (w = v + 1; gp_VertexInRange(theGraph, w); w++)
-        {
-            // Read each of v's w-neighbor flags
-            if (Infile != NULL)
-                fscanf(Infile, " %1d", &Flag);
-            else
-            {
-                sb_ReadSkipWhitespace(inBuf);
-                sscanf(sb_GetReadString(inBuf), " %1d", &Flag);
-                sb_ReadSkipInteger(inBuf);
-            }
-
-            // Add the edge (v, w) if the flag is raised
-            if (Flag)
-            {
-                if (gp_DynamicAddEdge(theGraph, v, 0, w, 0) != OK)
-                    return NOTOK;
-            }
-        }
-    }
-
-    return OK;
-}
-
-/********************************************************************
- _ReadAdjList()
- This function reads the graph in adjacency list format.
-
- The file format is
- On the first line    : N= number of vertices
- On N subsequent lines: #: a b c ... -1
- where # is a vertex number and a, b, c, ... are its neighbors.
-
- NOTE:  The vertex number is for file documentation only.  It is an
-        error if the vertices are not in sorted order in the file.
-
- NOTE:  If a loop edge is found, it is ignored without error.
-
- NOTE:  This routine supports digraphs.  For a directed arc (v -> W),
-        an edge record is created in both vertices, v and W, and the
-        edge record in v's adjacency list is marked OUTONLY while the
-        edge record in W's list is marked INONLY.
-        This makes it easy to used edge directedness when appropriate
-        but also seamlessly process the corresponding undirected graph.
-
- Returns: OK on success, NONEMBEDDABLE if success except too many edges
-          NOTOK on file content error (or internal error)
- ********************************************************************/
-
-int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
-{
-    int N = -1;
-    int v, W, adjList, e, indexValue, ErrorCode;
-    int zeroBased = FALSE;
-
-    if (Infile == NULL && inBuf == NULL)
-        return NOTOK;
-
-    // Skip the "N=" and then read the N value for number of vertices
-    if (Infile != NULL)
-    {
-        fgetc(Infile);
-        fgetc(Infile);
-        fscanf(Infile, " %d ", &N);
-    }
-    else
-    {
-        sb_ReadSkipChar(inBuf);
-        sb_ReadSkipChar(inBuf);
-        sb_ReadSkipWhitespace(inBuf);
-        sscanf(sb_GetReadString(inBuf), " %d ", &N);
-        sb_ReadSkipInteger(inBuf);
-        sb_ReadSkipWhitespace(inBuf);
-    }
-
-    // Initialize theGraph based on the number of vertices in the input
-    if (gp_InitGraph(theGraph, N) != OK)
-        return NOTOK;
-
-    // Clear the visited members of the vertices so they can be used
-    // during the adjacency list read operation
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-        gp_SetVertexVisitedInfo(theGraph, v, NIL);
-
-    // Do the adjacency list read operation for each vertex in order
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-    {
-        // Read the vertex number
-        if (Infile != NULL)
-            fscanf(Infile, "%d", &indexValue);
-        else
-        {
-            sscanf(sb_GetReadString(inBuf), "%d", &indexValue);
-            sb_ReadSkipInteger(inBuf);
-        }
-
-        if (indexValue == 0 && v == gp_GetFirstVertex(theGraph))
-            zeroBased = TRUE;
-        indexValue += zeroBased ? gp_GetFirstVertex(theGraph) : 0;
-
-        gp_SetVertexIndex(theGraph, v, indexValue);
-
-        // The vertices are expected to be in numeric ascending order
-        if (gp_GetVertexIndex(theGraph, v) != v)
-            return NOTOK;
-
-        // Skip the colon after the vertex number
-        if (Infile != NULL)
-            fgetc(Infile);
-        else
-            sb_ReadSkipChar(inBuf);
-
-        // If the vertex already has a non-empty adjacency list, then it is
-        // the result of adding edges during processing of preceding vertices.
-        // The list is removed from the current vertex v and saved for use
-        // during the read operation for v.  Adjacencies to preceding vertices
-        // are pulled from this list, if present, or added as directed edges
-        // if not.  Adjacencies to succeeding vertices are added as undirected
-        // edges, and will be corrected later if the succeeding vertex does not
-        // have the matching adjacency using the following mechanism.  After the
-        // read operation for a vertex v, any adjacency nodes left in the saved
-        // list are converted to directed edges from the preceding vertex to v.
-        adjList = gp_GetFirstArc(theGraph, v);
-        if (gp_IsArc(adjList))
-        {
-            // Store the adjacency node location in the visited member of each
-            // of the preceding vertices to which v is adjacent so that we can
-            // efficiently detect the adjacency during the read operation and
-            // efficiently find the adjacency node.
-            e = gp_GetFirstArc(theGraph, v);
-            while (gp_IsArc(e))
-            {
-                gp_SetVertexVisitedInfo(theGraph, gp_GetNeighbor(theGraph, e), e);
-                e = gp_GetNextArc(theGraph, e);
-            }
-
-            // Make the adjacency list circular, for later ease of processing
-            gp_SetPrevArc(theGraph, adjList, gp_GetLastArc(theGraph, v));
-            gp_SetNextArc(theGraph, gp_GetLastArc(theGraph, v), adjList);
-
-            // Remove the list from the vertex
-            gp_SetFirstArc(theGraph, v, NIL);
-            gp_SetLastArc(theGraph, v, NIL);
-        }
-
-        // Read the adjacency list.
-        while (1)
-        {
-            // Read the value indicating the next adjacent vertex (or the list end)
-            if (Infile != NULL)
-                fscanf(Infile, " %d ", &W);
-            else
-            {
-                sb_ReadSkipWhitespace(inBuf);
-                sscanf(sb_GetReadString(inBuf), " %d ", &W);
-                sb_ReadSkipInteger(inBuf);
-                sb_ReadSkipWhitespace(inBuf);
-            }
-            W += zeroBased ? gp_GetFirstVertex(theGraph) : 0;
-
-            // A value below the valid range indicates the adjacency list end
-            if (W < gp_GetFirstVertex(theGraph))
-                break;
-
-            // A value above the valid range is an error
-            if (W > gp_GetLastVertex(theGraph))
-                return NOTOK;
-
-            // Loop edges are not supported
-            else if (W == v)
-                return NOTOK;
-
-            // If the adjacency is to a succeeding, higher numbered vertex,
-            // then we'll add an undirected edge for now
-            else if (v < W)
-            {
-                if ((ErrorCode = gp_DynamicAddEdge(theGraph, v, 0, W, 0)) != OK)
-                    return ErrorCode;
-            }
-
-            // If the adjacency is to a preceding, lower numbered vertex, then
-            // we have to pull the adjacency node from the preexisting adjList,
-            // if it is there, and if not then we have to add a directed edge.
-            else
-            {
-                // If the adjacency node (arc) already exists, then we add it
-                // as the new first arc of the vertex and delete it from adjList
-                if (gp_IsArc(gp_GetVertexVisitedInfo(theGraph, W)))
-                {
-                    e = gp_GetVertexVisitedInfo(theGraph, W);
-
-                    // Remove the arc e from the adjList construct
-                    gp_SetVertexVisitedInfo(theGraph, W, NIL);
-                    if (adjList == e)
-                    {
-                        if ((adjList = gp_GetNextArc(theGraph, e)) == e)
-                            adjList = NIL;
-                    }
-                    gp_SetPrevArc(theGraph, gp_GetNextArc(theGraph, e), gp_GetPrevArc(theGraph, e));
-                    gp_SetNextArc(theGraph, gp_GetPrevArc(theGraph, e), gp_GetNextArc(theGraph, e));
-
-                    gp_AttachFirstArc(theGraph, v, e);
-                }
-
-                // If an adjacency node to the lower numbered vertex W does not
-                // already exist, then we make a new directed arc from the current
-                // vertex v to W.
-                else
-                {
-                    // It is added as the new first arc in both vertices
-                    if ((ErrorCode = gp_DynamicAddEdge(theGraph, v, 0, W, 0)) != OK)
-                        return ErrorCode;
-
-                    // Note that this call also sets OUTONLY on the twin arc
-                    gp_SetDirection(theGraph, gp_GetFirstArc(theGraph, W), EDGEFLAG_DIRECTION_INONLY);
-                }
-            }
-        }
-
-        // If there are still adjList entries after the read operation
-        // then those entries are not representative of full undirected edges.
-        // Rather, they represent incoming directed arcs from other vertices
-        // into vertex v. They need to be added back into v's adjacency list but
-        // marked as "INONLY", while the twin is marked "OUTONLY" (by the same function).
-        while (gp_IsArc(adjList))
-        {
-            e = adjList;
-
-            gp_SetVertexVisitedInfo(theGraph, gp_GetNeighbor(theGraph, e), NIL);
-
-            if ((adjList = gp_GetNextArc(theGraph, e)) == e)
-                adjList = NIL;
-
-            gp_SetPrevArc(theGraph, gp_GetNextArc(theGraph, e), gp_GetPrevArc(theGraph, e));
-            gp_SetNextArc(theGraph, gp_GetPrevArc(theGraph, e), gp_GetNextArc(theGraph, e));
-
-            gp_AttachFirstArc(theGraph, v, e);
-            gp_SetDirection(theGraph, e, EDGEFLAG_DIRECTION_INONLY);
-        }
-    }
-
-    if (zeroBased)
-        theGraph->internalFlags |= FLAGS_ZEROBASEDIO;
-
-    return OK;
-}
-
-/********************************************************************
- _ReadLEDAGraph()
- Reads the edge list from a LEDA file containing a simple undirected graph.
- LEDA files use a one-based numbering system, which is converted to
- zero-based numbers if the graph reports starting at zero as the first vertex.
-
- Returns: OK on success, NONEMBEDDABLE if success except too many edges
-          NOTOK on file content error (or internal error)
- ********************************************************************/
-
-int _ReadLEDAGraph(graphP theGraph, FILE *Infile)
-{
-    char Line[256];
-    int N = -1;
-    int M, m, u, v, ErrorCode;
-    int zeroBasedOffset = gp_GetFirstVertex(theGraph) == 0 ? 1 : 0;
-
-    /* Skip the lines that say LEDA.GRAPH and give the node and edge types */
-    fgets(Line, 255, Infile);
-
-    fgets(Line, 255, Infile);
-    fgets(Line, 255, Infile);
-
-    /* Read the number of vertices N, initialize the graph, then skip N. */
-    fgets(Line, 255, Infile);
-    sscanf(Line, " %d", &N);
-
-    if (gp_InitGraph(theGraph, N) != OK)
-        return NOTOK;
-
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-        fgets(Line, 255, Infile);
-
-    /* Read the number of edges */
-    fgets(Line, 255, Infile);
-    sscanf(Line, " %d", &M);
-
-    /* Read and add each edge, omitting loops and parallel edges */
-    for (m = 0; m < M; m++)
-    {
-        fgets(Line, 255, Infile);
-        sscanf(Line, " %d %d", &u, &v);
-        if (u != v && !gp_IsNeighbor(theGraph, u - zeroBasedOffset, v - zeroBasedOffset))
-        {
-            if ((ErrorCode = gp_DynamicAddEdge(theGraph, u - zeroBasedOffset, 0, v - zeroBasedOffset, 0)) != OK)
-                return ErrorCode;
-        }
-    }
-
-    if (zeroBasedOffset)
-        theGraph->internalFlags |= FLAGS_ZEROBASEDIO;
-
-    return OK;
-}
-
-/********************************************************************
- gp_Read()
- Opens the given file, determines whether it is in adjacency list or
- matrix format based on whether the file start with N or just a number,
- calls the appropriate read function, then closes the file and returns
- the graph.
-
- Digraphs and loop edges are not supported in the adjacency matrix format,
- which is upper triangular.
-
- In the adjacency list format, digraphs are supported.  Loop edges are
- ignored without producing an error.
-
- Pass "stdin" for the FileName to read from the stdin stream
-
- Returns: OK, NOTOK on internal error, NONEMBEDDABLE if too many edges
- ********************************************************************/
-
-int gp_Read(graphP theGraph, char *FileName)
-{
-    FILE *Infile;
-    bool extraDataAllowed = false;
-    char lineBuff[255];
-    int RetVal;
-
-    if (strcmp(FileName, "stdin") == 0)
-        Infile = stdin;
-    else if ((Infile = fopen(FileName, READTEXT)) == NULL)
-        return NOTOK;
-
-    fgets(lineBuff, 255, Infile);
-    // Reset file pointer to beginning of file
-    fseek(Infile, 0, SEEK_SET);
-    if (strncmp(lineBuff, "LEDA.GRAPH", strlen("LEDA.GRAPH")) == 0)
-        RetVal = _ReadLEDAGraph(theGraph, Infile);
-    else if (strncmp(lineBuff, "N=", strlen("N=")) == 0)
-    {
-        RetVal = _ReadAdjList(theGraph, Infile, NULL);
-        if (RetVal == OK)
-            extraDataAllowed = true;
-    }
-    else if (isdigit(lineBuff[0]))
-    {
-        RetVal = _ReadAdjMatrix(theGraph, Infile, NULL);
-        if (RetVal == OK)
-            extraDataAllowed = true;
-    }
-    else
-    {
-        RetVal = _ReadGraphFromG6FilePointer(theGraph, Infile);
-        // Since G6ReadIterator closes Infile via sf_Free(), we don't want
-        // to try to fclose() again.
-        Infile = NULL;
-    }
-
-    // The possibility of "extra data" is not allowed for .g6 format:
-    // .g6 files may contain multiple graphs, which are not valid input
-    // for the extra data readers (i.e. fpReadPostProcess) Additionally,
-    // we don't want to add extra data if the graph is nonembeddable, as
-    // the FILE pointer isn't necessarily advanced past the graph
-    // encoding unless OK is returned.
-    if (extraDataAllowed)
-    {
-        void *extraData = NULL;
-        long filePos = ftell(Infile);
-        long fileSize;
-
-        fseek(Infile, 0, SEEK_END);
-        fileSize = ftell(Infile);
-        fseek(Infile, filePos, SEEK_SET);
-
-        if (filePos < fileSize)
-        {
-            extraData = malloc(fileSize - filePos + 1);
-            fread(extraData, fileSize - filePos, 1, Infile);
-        }
-        /*
-                // Useful for quick debugging of IO extensibility
-                if (extraData == NULL)
-                    printf("extraData == NULL\n");
-                else
-                {
-                    char *extraDataString = (char *) extraData;
-                    extraDataString[fileSize - filePos] = '\0';
-                    printf("extraData = '%s'\n", extraDataString);
-                }
-        */
-
-        if (extraData != NULL)
-        {
-            RetVal = theGraph->functions.fpReadPostprocess(theGraph, extraData, fileSize - filePos);
-            free((void *)extraData);
-        }
-    }
-
-    if (strcmp(FileName, "stdin") != 0 && Infile != NULL)
-        fclose(Infile);
-
-    return RetVal;
-}
-
-/********************************************************************
- gp_ReadFromString()
- Populates theGraph using the information stored in inputStr (whose
- ownership is transferred from the caller, and therefore must be
- freed before returning).
-
- Supports adjacency list and adjacency matrix formats, not LEDA.
-
- Returns NOTOK for any error, or OK otherwise
- ********************************************************************/
-
-int gp_ReadFromString(graphP theGraph, char *inputStr)
-{
-    int RetVal;
-    bool extraDataAllowed = false;
-
-    strBufP inBuf = sb_New(0);
-    if (inBuf == NULL)
-    {
-        if (inputStr != NULL)
-            free(inputStr);
-        return NOTOK;
-    }
-
-    if (sb_ConcatString(inBuf, inputStr) != OK)
-    {
-        sb_Free(&inBuf);
-
-        if (inputStr != NULL)
-            free(inputStr);
-
-        return NOTOK;
-    }
-
-    if (strncmp(inputStr, "LEDA.GRAPH", strlen("LEDA.GRAPH")) == 0)
-    {
-        if (inputStr != NULL)
-            free(inputStr);
-        return NOTOK;
-    }
-    else if (strncmp(inputStr, "N=", strlen("N=")) == 0)
-    {
-        RetVal = _ReadAdjList(theGraph, NULL, inBuf);
-        if (RetVal == OK)
-            extraDataAllowed = true;
-    }
-    else if (isdigit(inputStr[0]))
-    {
-        RetVal = _ReadAdjMatrix(theGraph, NULL, inBuf);
-        if (RetVal == OK)
-            extraDataAllowed = true;
-    }
-    else
-    {
-        RetVal = _ReadGraphFromG6String(theGraph, inputStr);
-        // Since G6ReadIterator frees the inputStr via sf_Free(), we don't want
-        // to try to free again.
-        inputStr = NULL;
-    }
-
-    // The possibility of "extra data" is not allowed for .g6 format:
-    // .g6 files may contain multiple graphs, which are not valid input
-    // for the extra data readers (i.e. fpReadPostProcess) Additionally,
-    // we don't want to add extra data if the graph is nonembeddable, as
-    // the FILE pointer isn't necessarily advanced past the graph
-    // encoding unless OK is returned.
-    if (extraDataAllowed)
-    {
-        char *extraData = sb_GetReadString(inBuf);
-        int extraDataLen = extraData == NULL ? 0 : strlen(extraData);
-
-        if (extraDataLen > 0)
-            RetVal = theGraph->functions.fpReadPostprocess(theGraph, extraData, extraDataLen);
-    }
-
-    sb_Free(&inBuf);
-
-    if (inputStr != NULL)
-        free(inputStr);
-
-    return RetVal;
-}
-
-int _ReadPostprocess(graphP theGraph, void *extraData, long extraDataSize)
-{
-    return OK;
-}
-
-/********************************************************************
- _WriteAdjList()
- For each vertex, we write its number, a colon, the list of adjacent vertices,
- then a NIL.  The vertices occupy the first N positions of theGraph.  Each
- vertex is also has indicators of the first and last adjacency nodes (arcs)
- in its adjacency list.
-
- Returns: NOTOK for parameter errors; OK otherwise.
- ********************************************************************/
-
-int _WriteAdjList(graphP theGraph, FILE *Outfile, strBufP outBuf)
-{
-    int v, e;
-    int zeroBasedOffset = (theGraph->internalFlags & FLAGS_ZEROBASEDIO) ? gp_GetFirstVertex(theGraph) : 0;
-    char numberStr[128];
-
-    if (theGraph == NULL || (Outfile == NULL && outBuf == NULL))
-        return NOTOK;
-
-    // Write the number of vertices of the graph to the file or string buffer
-    if (Outfile != NULL)
-        fprintf(Outfile, "N=%d\n", theGraph->N);
-    else
-    {
-        sprintf(numberStr, "N=%d\n", theGraph->N);
-        if (sb_ConcatString(outBuf, numberStr) != OK)
-            return NOTOK;
-    }
-
-    // Write the adjacency list of each vertex
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-    {
-        if (Outfile != NULL)
-            fprintf(Outfile, "%d:", v - zeroBasedOffset);
-        else
-        {
-            sprintf(numberStr, "%d:", v - zeroBasedOffset);
-            if (sb_ConcatString(outBuf, numberStr) != OK)
-                return NOTOK;
-        }
-
-        e = gp_GetLastArc(theGraph, v);
-        while (gp_IsArc(e))
-        {
-            if (gp_GetDirection(theGraph, e) != EDGEFLAG_DIRECTION_INONLY)
-            {
-                if (Outfile != NULL)
-                    fprintf(Outfile, " %d", gp_GetNeighbor(theGraph, e) - zeroBasedOffset);
-                else
-                {
-                    sprintf(numberStr, " %d", gp_GetNeighbor(theGraph, e) - zeroBasedOffset);
-                    if (sb_ConcatString(outBuf, numberStr) != OK)
-                        return NOTOK;
-                }
-            }
-
-            e = gp_GetPrevArc(theGraph, e);
-        }
-
-        // Write NIL at the end of the adjacency list (in zero-based I/O, NIL was -1)
-        if (Outfile != NULL)
-            fprintf(Outfile, " %d\n", (theGraph->internalFlags & FLAGS_ZEROBASEDIO) ? -1 : NIL);
-        else
-        {
-            sprintf(numberStr, " %d\n", (theGraph->internalFlags & FLAGS_ZEROBASEDIO) ? -1 : NIL);
-            if (sb_ConcatString(outBuf, numberStr) != OK)
-                return NOTOK;
-        }
-    }
-
-    return OK;
-}
-
-/********************************************************************
- _WriteAdjMatrix()
- Outputs upper triangular matrix representation capable of being
- read by _ReadAdjMatrix().
-
- theGraph and one of Outfile or theStrBuf must be non-NULL.
-
- Note: This routine does not support digraphs and will return an
-       error if a directed edge is found.
-
- returns OK for success, NOTOK for failure
- ********************************************************************/
-
-int _WriteAdjMatrix(graphP theGraph, FILE *Outfile, strBufP outBuf)
-{
-    int v, e, K;
-    char *Row = NULL;
-    char numberStr[128];
-
-    if (theGraph == NULL || (Outfile == NULL && outBuf == NULL))
-        return NOTOK;
-
-    // Write the number of vertices in the graph to the file or string buffer
-    if (Outfile != NULL)
-        fprintf(Outfile, "%d\n", theGraph->N);
-    else
-    {
-        sprintf(numberStr, "%d\n", theGraph->N);
-        if (sb_ConcatString(outBuf, numberStr) != OK)
-            return NOTOK;
-    }
-
-    // Allocate memory for storing a string expression of one row at a time
-    Row = (char *)malloc((theGraph->N + 2) * sizeof(char));
-    if (Row == NULL)
-        return NOTOK;
-
-    // Construct the upper triangular matrix representation one row at a time
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-    {
-        for (K = gp_GetFirstVertex(theGraph); K <= v; K++)
-            Row[K - gp_GetFirstVertex(theGraph)] = ' ';
-        for (K = v + 1; gp_VertexInRange(theGraph, K); K++)
-            Row[K - gp_GetFirstVertex(theGraph)] = '0';
-
-        e = gp_GetFirstArc(theGraph, v);
-        while (gp_IsArc(e))
-        {
-            if (gp_GetDirection(theGraph, e) == EDGEFLAG_DIRECTION_INONLY)
-                return NOTOK;
-
-            if (gp_GetNeighbor(theGraph, e) > v)
-                Row[gp_GetNeighbor(theGraph, e) - gp_GetFirstVertex(theGraph)] = '1';
-
-            e = gp_GetNextArc(theGraph, e);
-        }
-
-        Row[theGraph->N] = '\n';
-        Row[theGraph->N + 1] = '\0';
-
-        // Write the row to the file or string buffer
-        if (Outfile != NULL)
-            fprintf(Outfile, "%s", Row);
-        else
-            sb_ConcatString(outBuf, Row);
-    }
-
-    free(Row);
-    return OK;
-}
-
-/********************************************************************
- ********************************************************************/
-
-char _GetEdgeTypeChar(graphP theGraph, int e)
-{
-    char type = 'U';
-
-    if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
-        type = 'C';
-    else if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_FORWARD)
-        type = 'F';
-    else if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_PARENT)
-        type = 'P';
-    else if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_BACK)
-        type = 'B';
-    else if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_RANDOMTREE)
-        type = 'T';
-
-    return type;
-}
-
-/********************************************************************
- ********************************************************************/
-
-char _GetVertexObstructionTypeChar(graphP theGraph, int v)
-{
-    char type = 'U';
-
-    if (gp_GetVertexObstructionType(theGraph, v) == VERTEX_OBSTRUCTIONTYPE_HIGH_RXW)
-        type = 'X';
-    else if (gp_GetVertexObstructionType(theGraph, v) == VERTEX_OBSTRUCTIONTYPE_LOW_RXW)
-        type = 'x';
-    if (gp_GetVertexObstructionType(theGraph, v) == VERTEX_OBSTRUCTIONTYPE_HIGH_RYW)
-        type = 'Y';
-    else if (gp_GetVertexObstructionType(theGraph, v) == VERTEX_OBSTRUCTIONTYPE_LOW_RYW)
-        type = 'y';
-
-    return type;
-}
-
-/********************************************************************
- _WriteDebugInfo()
- Writes adjacency list, but also includes the type value of each
- edge (e.g. is it DFS child  arc, forward arc or back arc?), and
- the L, A and DFSParent of each vertex.
- ********************************************************************/
-
-int _WriteDebugInfo(graphP theGraph, FILE *Outfile)
-{
-    int v, e, EsizeOccupied;
-
-    if (theGraph == NULL || Outfile == NULL)
-        return NOTOK;
-
-    /* Print parent copy vertices and their adjacency lists */
-
-    fprintf(Outfile, "DEBUG N=%d M=%d\n", theGraph->N, theGraph->M);
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-    {
-        fprintf(Outfile, "%d(P=%d,lA=%d,LowPt=%d,v=%d):",
-                v, gp_GetVertexParent(theGraph, v),
-                gp_GetVertexLeastAncestor(theGraph, v),
-                gp_GetVertexLowpoint(theGraph, v),
-                gp_GetVertexIndex(theGraph, v));
-
-        e = gp_GetFirstArc(theGraph, v);
-        while (gp_IsArc(e))
-        {
-            fprintf(Outfile, " %d(e=%d)", gp_GetNeighbor(theGraph, e), e);
-            e = gp_GetNextArc(theGraph, e);
-        }
-
-        fprintf(Outfile, " %d\n", NIL);
-    }
-
-    /* Print any root copy vertices and their adjacency lists */
-
-    for (v = gp_GetFirstVirtualVertex(theGraph); gp_VirtualVertexInRange(theGraph, v); v++)
-    {
-        if (!gp_VirtualVertexInUse(theGraph, v))
-            continue;
-
-        fprintf(Outfile, "%d(copy of=%d, DFS child=%d):",
-                v, gp_GetVertexIndex(theGraph, v),
-                gp_GetDFSChildFromRoot(theGraph, v));
-
-        e = gp_GetFirstArc(theGraph, v);
-        while (gp_IsArc(e))
-        {
-            fprintf(Outfile, " %d(e=%d)", gp_GetNeighbor(theGraph, e), e);
-            e = gp_GetNextArc(theGraph, e);
-        }
-
-        fprintf(Outfile, " %d\n", NIL);
-    }
-
-    /* Print information about vertices and root copy (virtual) vertices */
-    fprintf(Outfile, "\nVERTEX INFORMATION\n");
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-    {
-        fprintf(Outfile, "V[%3d] index=%3d, type=%c, first arc=%3d, last arc=%3d\n",
-                v,
-                gp_GetVertexIndex(theGraph, v),
-                (gp_IsVirtualVertex(theGraph, v) ? 'X' : _GetVertexObstructionTypeChar(theGraph, v)),
-                gp_GetFirstArc(theGraph, v),
-                gp_GetLastArc(theGraph, v));
-    }
-    for (v = gp_GetFirstVirtualVertex(theGraph); gp_VirtualVertexInRange(theGraph, v); v++)
-    {
-        if (gp_VirtualVertexNotInUse(theGraph, v))
-            continue;
-
-        fprintf(Outfile, "V[%3d] index=%3d, type=%c, first arc=%3d, last arc=%3d\n",
-                v,
-                gp_GetVertexIndex(theGraph, v),
-                (gp_IsVirtualVertex(theGraph, v) ? 'X' : _GetVertexObstructionTypeChar(theGraph, v)),
-                gp_GetFirstArc(theGraph, v),
-                gp_GetLastArc(theGraph, v));
-    }
-
-    /* Print information about edges */
-
-    fprintf(Outfile, "\nEDGE INFORMATION\n");
-    EsizeOccupied = gp_EdgeInUseIndexBound(theGraph);
-    for (e = gp_GetFirstEdge(theGraph); e < EsizeOccupied; e++)
-    {
-        if (gp_EdgeInUse(theGraph, e))
-        {
-            fprintf(Outfile, "E[%3d] neighbor=%3d, type=%c, next arc=%3d, prev arc=%3d\n",
-                    e,
-                    gp_GetNeighbor(theGraph, e),
-                    _GetEdgeTypeChar(theGraph, e),
-                    gp_GetNextArc(theGraph, e),
-                    gp_GetPrevArc(theGraph, e));
-        }
-    }
-
-    return OK;
-}
-
-/********************************************************************
- gp_Write()
- Writes theGraph into the file.
- Pass "stdout" or "stderr" to FileName to write to the corresponding stream
- Pass WRITE_G6, WRITE_ADJLIST, WRITE_ADJMATRIX, or WRITE_DEBUGINFO for the Mode
-
- NOTE: For digraphs, it is an error to use a mode other than WRITE_ADJLIST
-
- Returns NOTOK on error, OK on success.
- ********************************************************************/
-
-int gp_Write(graphP theGraph, char *FileName, int Mode)
-{
-    FILE *Outfile;
-    int RetVal;
-
-    if (theGraph == NULL || FileName == NULL)
-        return NOTOK;
-
-    if (strcmp(FileName, "nullwrite") == 0)
-        return OK;
-
-    if (strcmp(FileName, "stdout") == 0)
-        Outfile = stdout;
-    else if (strcmp(FileName, "stderr") == 0)
-        Outfile = stderr;
-    else if ((Outfile = fopen(FileName, WRITETEXT)) == NULL)
-        return NOTOK;
-
-    switch (Mode)
-    {
-    case WRITE_G6:
-        RetVal = _WriteGraphToG6FilePointer(theGraph, Outfile);
-        // Since G6WriteIterator closes Outfile, we don't want
-        // to try to fclose() again.
-        Outfile = NULL;
-        break;
-    case WRITE_ADJLIST:
-        RetVal = _WriteAdjList(theGraph, Outfile, NULL);
-        break;
-    case WRITE_ADJMATRIX:
-        RetVal = _WriteAdjMatrix(theGraph, Outfile, NULL);
-        break;
-    case WRITE_DEBUGINFO:
-        RetVal = _WriteDebugInfo(theGraph, Outfile);
-        break;
-    default:
-        RetVal = NOTOK;
-        break;
-    }
-
-    if (RetVal == OK)
-    {
-        void *extraData = NULL;
-        long extraDataSize;
-
-        RetVal = theGraph->functions.fpWritePostprocess(theGraph, &extraData, &extraDataSize);
-
-        if (extraData != NULL)
-        {
-            if (!fwrite(extraData, extraDataSize, 1, Outfile))
-                RetVal = NOTOK;
-            free(extraData);
-        }
-    }
-
-    if (strcmp(FileName, "stdout") == 0 || strcmp(FileName, "stderr") == 0)
-        fflush(Outfile);
-
-    else if (Outfile != NULL && fclose(Outfile) != 0)
-        RetVal = NOTOK;
-
-    return RetVal;
-}
-
-/********************************************************************
- * gp_WriteToString()
- *
- * Writes the information of theGraph into a string that is returned
- * to the caller via the pointer pointer pOutputStr.
- * The string is owned by the caller and should be released with
- * free() when the caller doesn't need the string anymore.
- * The format of the content written into the returned string is based
- * on the Mode parameter: WRITE_G6, WRITE_ADJLIST, or WRITE_ADJMATRIX
- * (the WRITE_DEBUGINFO Mode is not supported at this time)
-
- NOTE: For digraphs, it is an error to use a mode other than WRITE_ADJLIST
-
- Returns NOTOK on error, or OK on success along with an allocated string
-         *pOutputStr that the caller must free()
- ********************************************************************/
-int gp_WriteToString(graphP theGraph, char **pOutputStr, int Mode)
-{
-    int RetVal;
-    strBufP outBuf = sb_New(0);
-
-    if (theGraph == NULL || pOutputStr == NULL || outBuf == NULL)
-    {
-        sb_Free(&outBuf);
-        return NOTOK;
-    }
-
-    switch (Mode)
-    {
-    case WRITE_G6:
-        RetVal = _WriteGraphToG6String(theGraph, pOutputStr);
-        sb_Free(&outBuf);
-        break;
-    case WRITE_ADJLIST:
-        RetVal = _WriteAdjList(theGraph, NULL, outBuf);
-        break;
-    case WRITE_ADJMATRIX:
-        RetVal = _WriteAdjMatrix(theGraph, NULL, outBuf);
-        break;
-    default:
-        RetVal = NOTOK;
-        break;
-    }
-
-    if (RetVal == OK)
-    {
-        void *extraData = NULL;
-        long extraDataSize;
-
-        RetVal = theGraph->functions.fpWritePostprocess(theGraph, &extraData, &extraDataSize);
-
-        if (extraData != NULL)
-        {
-            for (int i = 0; i < extraDataSize; i++)
-                sb_ConcatChar(outBuf, ((char *)extraData)[i]);
-            free(extraData);
-        }
-    }
-
-    if (outBuf != NULL)
-        *pOutputStr = sb_TakeString(outBuf);
-    sb_Free(&outBuf);
-
-    return RetVal;
-}
-
-/********************************************************************
- _WritePostprocess()
-
- By default, no additional information is written.
- ********************************************************************/
-
-int _WritePostprocess(graphP theGraph, void **pExtraData, long *pExtraDataSize)
-{
-    return OK;
-}
-
-/********************************************************************
- _Log()
-
- When the project is compiled with LOGGING enabled, this method writes
- a string to the file PLANARITY.LOG in the current working directory.
- On first write, the file is created or cleared.
- Call this method with NULL to close the log file.
- ********************************************************************/
-
-void _Log(char *Str)
-{
-    static FILE *logfile = NULL;
-
-    if (logfile == NULL)
-    {
-        if ((logfile = fopen("PLANARITY.LOG", WRITETEXT)) == NULL)
-            return;
-    }
-
-    if (Str != NULL)
-    {
-        fprintf(logfile, "%s", Str);
-        fflush(logfile);
-    }
-    else
-        fclose(logfile);
-}
-
-void _LogLine(char *Str)
-{
-    _Log(Str);
-    _Log("\n");
-}
-
-static char LogStr[512];
-
-char *_MakeLogStr1(char *format, int one)
-{
-    sprintf(LogStr, format, one);
-    return LogStr;
-}
-
-char *_MakeLogStr2(char *format, int one, int two)
-{
-    sprintf(LogStr, format, one, two);
-    return LogStr;
-}
-
-char *_MakeLogStr3(char *format, int one, int two, int three)
-{
-    sprintf(LogStr, format, one, two, three);
-    return LogStr;
-}
-
-char *_MakeLogStr4(char *format, int one, int two, int three, int four)
-{
-    sprintf(LogStr, format, one, two, three, four);
-    return LogStr;
-}
-
-char *_MakeLogStr5(char *format, int one, int two, int three, int four, int five)
-{
-    sprintf(LogStr, format, one, two, three, four, five);
-    return LogStr;
-}
+/*
+Copyright (c) 1997-2022, John M. Boyer
+All rights reserved.
+See the LICENSE.TXT file for licensing information.
+*/
+
+#include <stdlib.h>
+#include <string.h>
+#include <ctype.h>
+
+#include "../graph.h"
+#include "g6-read-iterator.h"
+#include "g6-write-iterator.h"
+
+/* Private functions (exported to system) */
+
+int _ReadAdjMatrix(graphP theGraph, FILE *Infile, strBufP inBuf);
+int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf);
+int _WriteAdjList(graphP theGraph, FILE *Outfile, strBufP outBuf);
+int _WriteAdjMatrix(graphP theGraph, FILE *Outfile, strBufP outBuf);
+int _WriteDebugInfo(graphP theGraph, FILE *Outfile);
+
+/********************************************************************
+ _ReadAdjMatrix()
+ This function reads the undirected graph in upper triangular matrix format.
+ Though O(N^2) time is required, this routine is useful during
+ reliability testing due to the wealth of graph generating software
+ that uses this format for output.
+ Returns: OK, NOTOK on internal error, NONEMBEDDABLE if too many edges
+ ********************************************************************/
+
+int _ReadAdjMatrix(graphP theGraph, FILE *Infile, strBufP inBuf)
+{
+    int N = -1;
+    int v, w, Flag;
+
+    if (Infile == NULL && inBuf == NULL)
+        return NOTOK;
+
+    // Read the number of vertices from the first line of the file
+    if (Infile != NULL)
+        fscanf(Infile, " %d ", &N);
+    else
+    {
+        sb_ReadSkipWhitespace(inBuf);
+        sscanf(sb_GetReadString(inBuf), " %d ", &N);
+        sb_ReadSkipInteger(inBuf);
+        sb_ReadSkipWhitespace(inBuf);
+    }
+
+    // Initialize the graph based on the number of vertices
+    if (gp_InitGraph(theGraph, N) != OK)
+        return NOTOK;
+
+    // Read an upper-triangular matrix row for each vertex
+    // Note that for the last vertex, zero flags are read, per the upper triangular format
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+    {
+        gp_SetVertexIndex(theGraph, v, v);
+        for (w = v + 1; gp_VertexInRange(theGraph, w); w++)
+        {
+            // Read each of v's w-neighbor flags
+            if (Infile != NULL)
+            {
+                if (fscanf(Infile, " %1d", &Flag) != 1)
+                    return NOTOK;
+            }
+            else
+            {
+                sb_ReadSkipWhitespace(inBuf);
+                if (sscanf(sb_GetReadString(inBuf), " %1d", &Flag) != 1)
+                    return NOTOK;
+                sb_ReadSkipChar(inBuf);
+            }
+
+            // Add the edge (v, w) if the flag is raised
+            if (Flag)
+            {
+                if (gp_DynamicAddEdge(theGraph, v, 0, w, 0) != OK)
+                    return NOTOK;
+            }
+        }
+    }
+
+    return OK;
+}
+
+/********************************************************************
+ _ReadAdjList()
+ This function reads the graph in adjacency list format.
+
+ The file format is
+ On the first line    : N= number of vertices
+ On N subsequent lines: #: a b c ... -1
+ where # is a vertex number and a, b, c, ... are its neighbors.
+
+ NOTE:  The vertex number is for file documentation only.  It is an
+        error if the vertices are not in sorted order in the file.
+
+ NOTE:  If a loop edge is found, it is ignored without error.
+
+ NOTE:  This routine supports digraphs.  For a directed arc (v -> W),
+        an edge record is created in both vertices, v and W, and the
+        edge record in v's adjacency list is marked OUTONLY while the
+        edge record in W's list is marked INONLY.
+        This makes it easy to used edge directedness when appropriate
+        but also seamlessly process the corresponding undirected graph.
+
+ Returns: OK on success, NONEMBEDDABLE if success except too many edges
+          NOTOK on file content error (or internal error)
+ ********************************************************************/
+
+int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
+{
+    int N = -1;
+    int v, W, adjList, e, indexValue, ErrorCode;
+    int zeroBased = FALSE;
+
+    if (Infile == NULL && inBuf == NULL)
+        return NOTOK;
+
+    // Skip the "N=" and then read the N value for number of vertices
+    if (Infile != NULL)
+    {
+        fgetc(Infile);
+        fgetc(Infile);
+        fscanf(Infile, " %d ", &N);
+    }
+    else
+    {
+        sb_ReadSkipChar(inBuf);
+        sb_ReadSkipChar(inBuf);
+        sb_ReadSkipWhitespace(inBuf);
+        sscanf(sb_GetReadString(inBuf), " %d ", &N);
+        sb_ReadSkipInteger(inBuf);
+        sb_ReadSkipWhitespace(inBuf);
+    }
+
+    // Initialize theGraph based on the number of vertices in the input
+    if (gp_InitGraph(theGraph, N) != OK)
+        return NOTOK;
+
+    // Clear the visited members of the vertices so they can be used
+    // during the adjacency list read operation
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+        gp_SetVertexVisitedInfo(theGraph, v, NIL);
+
+    // Do the adjacency list read operation for each vertex in order
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+    {
+        // Read the vertex number
+        if (Infile != NULL)
+            fscanf(Infile, "%d", &indexValue);
+        else
+        {
+            sscanf(sb_GetReadString(inBuf), "%d", &indexValue);
+            sb_ReadSkipInteger(inBuf);
+        }
+
+        if (indexValue == 0 && v == gp_GetFirstVertex(theGraph))
+            zeroBased = TRUE;
+        indexValue += zeroBased ? gp_GetFirstVertex(theGraph) : 0;
+
+        gp_SetVertexIndex(theGraph, v, indexValue);
+
+        // The vertices are expected to be in numeric ascending order
+        if (gp_GetVertexIndex(theGraph, v) != v)
+            return NOTOK;
+
+        // Skip the colon after the vertex number
+        if (Infile != NULL)
+            fgetc(Infile);
+        else
+            sb_ReadSkipChar(inBuf);
+
+        // If the vertex already has a non-empty adjacency list, then it is
+        // the result of adding edges during processing of preceding vertices.
+        // The list is removed from the current vertex v and saved for use
+        // during the read operation for v.  Adjacencies to preceding vertices
+        // are pulled from this list, if present, or added as directed edges
+        // if not.  Adjacencies to succeeding vertices are added as undirected
+        // edges, and will be corrected later if the succeeding vertex does not
+        // have the matching adjacency using the following mechanism.  After the
+        // read operation for a vertex v, any adjacency nodes left in the saved
+        // list are converted to directed edges from the preceding vertex to v.
+        adjList = gp_GetFirstArc(theGraph, v);
+        if (gp_IsArc(adjList))
+        {
+            // Store the adjacency node location in the visited member of each
+            // of the preceding vertices to which v is adjacent so that we can
+            // efficiently detect the adjacency during the read operation and
+            // efficiently find the adjacency node.
+            e = gp_GetFirstArc(theGraph, v);
+            while (gp_IsArc(e))
+            {
+                gp_SetVertexVisitedInfo(theGraph, gp_GetNeighbor(theGraph, e), e);
+                e = gp_GetNextArc(theGraph, e);
+            }
+
+            // Make the adjacency list circular, for later ease of processing
+            gp_SetPrevArc(theGraph, adjList, gp_GetLastArc(theGraph, v));
+            gp_SetNextArc(theGraph, gp_GetLastArc(theGraph, v), adjList);
+
+            // Remove the list from the vertex
+            gp_SetFirstArc(theGraph, v, NIL);
+            gp_SetLastArc(theGraph, v, NIL);
+        }
+
+        // Read the adjacency list.
+        while (1)
+        {
+            // Read the value indicating the next adjacent vertex (or the list end)
+            if (Infile != NULL)
+                fscanf(Infile, " %d ", &W);
+            else
+            {
+                sb_ReadSkipWhitespace(inBuf);
+                sscanf(sb_GetReadString(inBuf), " %d ", &W);
+                sb_ReadSkipInteger(inBuf);
+                sb_ReadSkipWhitespace(inBuf);
+            }
+            W += zeroBased ? gp_GetFirstVertex(theGraph) : 0;
+
+            // A value below the valid range indicates the adjacency list end
+            if (W < gp_GetFirstVertex(theGraph))
+                break;
+
+            // A value above the valid range is an error
+            if (W > gp_GetLastVertex(theGraph))
+                return NOTOK;
+
+            // Loop edges are not supported
+            else if (W == v)
+                return NOTOK;
+
+            // If the adjacency is to a succeeding, higher numbered vertex,
+            // then we'll add an undirected edge for now
+            else if (v < W)
+            {
+                if ((ErrorCode = gp_DynamicAddEdge(theGraph, v, 0, W, 0)) != OK)
+                    return ErrorCode;
+            }
+
+            // If the adjacency is to a preceding, lower numbered vertex, then
+            // we have to pull the adjacency node from the preexisting adjList,
+            // if it is there, and if not then we have to add a directed edge.
+            else
+            {
+                // If the adjacency node (arc) already exists, then we add it
+                // as the new first arc of the vertex and delete it from adjList
+                if (gp_IsArc(gp_GetVertexVisitedInfo(theGraph, W)))
+                {
+                    e = gp_GetVertexVisitedInfo(theGraph, W);
+
+                    // Remove the arc e from the adjList construct
+                    gp_SetVertexVisitedInfo(theGraph, W, NIL);
+                    if (adjList == e)
+                    {
+                        if ((adjList = gp_GetNextArc(theGraph, e)) == e)
+                            adjList = NIL;
+                    }
+                    gp_SetPrevArc(theGraph, gp_GetNextArc(theGraph, e), gp_GetPrevArc(theGraph, e));
+                    gp_SetNextArc(theGraph, gp_GetPrevArc(theGraph, e), gp_GetNextArc(theGraph, e));
+
+                    gp_AttachFirstArc(theGraph, v, e);
+                }
+
+                // If an adjacency node to the lower numbered vertex W does not
+                // already exist, then we make a new directed arc from the current
+                // vertex v to W.
+                else
+                {
+                    // It is added as the new first arc in both vertices
+                    if ((ErrorCode = gp_DynamicAddEdge(theGraph, v, 0, W, 0)) != OK)
+                        return ErrorCode;
+
+                    // Note that this call also sets OUTONLY on the twin arc
+                    gp_SetDirection(theGraph, gp_GetFirstArc(theGraph, W), EDGEFLAG_DIRECTION_INONLY);
+                }
+            }
+        }
+
+        // If there are still adjList entries after the read operation
+        // then those entries are not representative of full undirected edges.
+        // Rather, they represent incoming directed arcs from other vertices
+        // into vertex v. They need to be added back into v's adjacency list but
+        // marked as "INONLY", while the twin is marked "OUTONLY" (by the same function).
+        while (gp_IsArc(adjList))
+        {
+            e = adjList;
+
+            gp_SetVertexVisitedInfo(theGraph, gp_GetNeighbor(theGraph, e), NIL);
+
+            if ((adjList = gp_GetNextArc(theGraph, e)) == e)
+                adjList = NIL;
+
+            gp_SetPrevArc(theGraph, gp_GetNextArc(theGraph, e), gp_GetPrevArc(theGraph, e));
+            gp_SetNextArc(theGraph, gp_GetPrevArc(theGraph, e), gp_GetNextArc(theGraph, e));
+
+            gp_AttachFirstArc(theGraph, v, e);
+            gp_SetDirection(theGraph, e, EDGEFLAG_DIRECTION_INONLY);
+        }
+    }
+
+    if (zeroBased)
+        theGraph->internalFlags |= FLAGS_ZEROBASEDIO;
+
+    return OK;
+}
+
+/********************************************************************
+ _ReadLEDAGraph()
+ Reads the edge list from a LEDA file containing a simple undirected graph.
+ LEDA files use a one-based numbering system, which is converted to
+ zero-based numbers if the graph reports starting at zero as the first vertex.
+
+ Returns: OK on success, NONEMBEDDABLE if success except too many edges
+          NOTOK on file content error (or internal error)
+ ********************************************************************/
+
+int _ReadLEDAGraph(graphP theGraph, FILE *Infile)
+{
+    char Line[256];
+    int N = -1;
+    int M, m, u, v, ErrorCode;
+    int zeroBasedOffset = gp_GetFirstVertex(theGraph) == 0 ? 1 : 0;
+
+    /* Skip the lines that say LEDA.GRAPH and give the node and edge types */
+    fgets(Line, 255, Infile);
+
+    fgets(Line, 255, Infile);
+    fgets(Line, 255, Infile);
+
+    /* Read the number of vertices N, initialize the graph, then skip N. */
+    fgets(Line, 255, Infile);
+    sscanf(Line, " %d", &N);
+
+    if (gp_InitGraph(theGraph, N) != OK)
+        return NOTOK;
+
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+        fgets(Line, 255, Infile);
+
+    /* Read the number of edges */
+    fgets(Line, 255, Infile);
+    sscanf(Line, " %d", &M);
+
+    /* Read and add each edge, omitting loops and parallel edges */
+    for (m = 0; m < M; m++)
+    {
+        fgets(Line, 255, Infile);
+        sscanf(Line, " %d %d", &u, &v);
+        if (u != v && !gp_IsNeighbor(theGraph, u - zeroBasedOffset, v - zeroBasedOffset))
+        {
+            if ((ErrorCode = gp_DynamicAddEdge(theGraph, u - zeroBasedOffset, 0, v - zeroBasedOffset, 0)) != OK)
+                return ErrorCode;
+        }
+    }
+
+    if (zeroBasedOffset)
+        theGraph->internalFlags |= FLAGS_ZEROBASEDIO;
+
+    return OK;
+}
+
+/********************************************************************
+ gp_Read()
+ Opens the given file, determines whether it is in adjacency list or
+ matrix format based on whether the file start with N or just a number,
+ calls the appropriate read function, then closes the file and returns
+ the graph.
+
+ Digraphs and loop edges are not supported in the adjacency matrix format,
+ which is upper triangular.
+
+ In the adjacency list format, digraphs are supported.  Loop edges are
+ ignored without producing an error.
+
+ Pass "stdin" for the FileName to read from the stdin stream
+
+ Returns: OK, NOTOK on internal error, NONEMBEDDABLE if too many edges
+ ********************************************************************/
+
+int gp_Read(graphP theGraph, char *FileName)
+{
+    FILE *Infile;
+    bool extraDataAllowed = false;
+    char lineBuff[255];
+    int RetVal;
+
+    if (strcmp(FileName, "stdin") == 0)
+        Infile = stdin;
+    else if ((Infile = fopen(FileName, READTEXT)) == NULL)
+        return NOTOK;
+
+    fgets(lineBuff, 255, Infile);
+    // Reset file pointer to beginning of file
+    fseek(Infile, 0, SEEK_SET);
+    if (strncmp(lineBuff, "LEDA.GRAPH", strlen("LEDA.GRAPH")) == 0)
+        RetVal = _ReadLEDAGraph(theGraph, Infile);
+    else if (strncmp(lineBuff, "N=", strlen("N=")) == 0)
+    {
+        RetVal = _ReadAdjList(theGraph, Infile, NULL);
+        if (RetVal == OK)
+            extraDataAllowed = true;
+    }
+    else if (isdigit(lineBuff[0]))
+    {
+        RetVal = _ReadAdjMatrix(theGraph, Infile, NULL);
+        if (RetVal == OK)
+            extraDataAllowed = true;
+    }
+    else
+    {
+        RetVal = _ReadGraphFromG6FilePointer(theGraph, Infile);
+        // Since G6ReadIterator closes Infile via sf_Free(), we don't want
+        // to try to fclose() again.
+        Infile = NULL;
+    }
+
+    // The possibility of "extra data" is not allowed for .g6 format:
+    // .g6 files may contain multiple graphs, which are not valid input
+    // for the extra data readers (i.e. fpReadPostProcess) Additionally,
+    // we don't want to add extra data if the graph is nonembeddable, as
+    // the FILE pointer isn't necessarily advanced past the graph
+    // encoding unless OK is returned.
+    if (extraDataAllowed)
+    {
+        void *extraData = NULL;
+        long filePos = ftell(Infile);
+        long fileSize;
+
+        fseek(Infile, 0, SEEK_END);
+        fileSize = ftell(Infile);
+        fseek(Infile, filePos, SEEK_SET);
+
+        if (filePos < fileSize)
+        {
+            extraData = malloc(fileSize - filePos + 1);
+            fread(extraData, fileSize - filePos, 1, Infile);
+        }
+        /*
+                // Useful for quick debugging of IO extensibility
+                if (extraData == NULL)
+                    printf("extraData == NULL\n");
+                else
+                {
+                    char *extraDataString = (char *) extraData;
+                    extraDataString[fileSize - filePos] = '\0';
+                    printf("extraData = '%s'\n", extraDataString);
+                }
+        */
+
+        if (extraData != NULL)
+        {
+            RetVal = theGraph->functions.fpReadPostprocess(theGraph, extraData, fileSize - filePos);
+            free((void *)extraData);
+        }
+    }
+
+    if (strcmp(FileName, "stdin") != 0 && Infile != NULL)
+        fclose(Infile);
+
+    return RetVal;
+}
+
+/********************************************************************
+ gp_ReadFromString()
+ Populates theGraph using the information stored in inputStr (whose
+ ownership is transferred from the caller, and therefore must be
+ freed before returning).
+
+ Supports adjacency list and adjacency matrix formats, not LEDA.
+
+ Returns NOTOK for any error, or OK otherwise
+ ********************************************************************/
+
+int gp_ReadFromString(graphP theGraph, char *inputStr)
+{
+    int RetVal;
+    bool extraDataAllowed = false;
+
+    strBufP inBuf = sb_New(0);
+    if (inBuf == NULL)
+    {
+        if (inputStr != NULL)
+            free(inputStr);
+        return NOTOK;
+    }
+
+    if (sb_ConcatString(inBuf, inputStr) != OK)
+    {
+        sb_Free(&inBuf);
+
+        if (inputStr != NULL)
+            free(inputStr);
+
+        return NOTOK;
+    }
+
+    if (strncmp(inputStr, "LEDA.GRAPH", strlen("LEDA.GRAPH")) == 0)
+    {
+        if (inputStr != NULL)
+            free(inputStr);
+        return NOTOK;
+    }
+    else if (strncmp(inputStr, "N=", strlen("N=")) == 0)
+    {
+        RetVal = _ReadAdjList(theGraph, NULL, inBuf);
+        if (RetVal == OK)
+            extraDataAllowed = true;
+    }
+    else if (isdigit(inputStr[0]))
+    {
+        RetVal = _ReadAdjMatrix(theGraph, NULL, inBuf);
+        if (RetVal == OK)
+            extraDataAllowed = true;
+    }
+    else
+    {
+        RetVal = _ReadGraphFromG6String(theGraph, inputStr);
+        // Since G6ReadIterator frees the inputStr via sf_Free(), we don't want
+        // to try to free again.
+        inputStr = NULL;
+    }
+
+    // The possibility of "extra data" is not allowed for .g6 format:
+    // .g6 files may contain multiple graphs, which are not valid input
+    // for the extra data readers (i.e. fpReadPostProcess) Additionally,
+    // we don't want to add extra data if the graph is nonembeddable, as
+    // the FILE pointer isn't necessarily advanced past the graph
+    // encoding unless OK is returned.
+    if (extraDataAllowed)
+    {
+        char *extraData = sb_GetReadString(inBuf);
+        int extraDataLen = extraData == NULL ? 0 : strlen(extraData);
+
+        if (extraDataLen > 0)
+            RetVal = theGraph->functions.fpReadPostprocess(theGraph, extraData, extraDataLen);
+    }
+
+    sb_Free(&inBuf);
+
+    if (inputStr != NULL)
+        free(inputStr);
+
+    return RetVal;
+}
+
+int _ReadPostprocess(graphP theGraph, void *extraData, long extraDataSize)
+{
+    return OK;
+}
+
+/********************************************************************
+ _WriteAdjList()
+ For each vertex, we write its number, a colon, the list of adjacent vertices,
+ then a NIL.  The vertices occupy the first N positions of theGraph.  Each
+ vertex is also has indicators of the first and last adjacency nodes (arcs)
+ in its adjacency list.
+
+ Returns: NOTOK for parameter errors; OK otherwise.
+ ********************************************************************/
+
+int _WriteAdjList(graphP theGraph, FILE *Outfile, strBufP outBuf)
+{
+    int v, e;
+    int zeroBasedOffset = (theGraph->internalFlags & FLAGS_ZEROBASEDIO) ? gp_GetFirstVertex(theGraph) : 0;
+    char numberStr[128];
+
+    if (theGraph == NULL || (Outfile == NULL && outBuf == NULL))
+        return NOTOK;
+
+    // Write the number of vertices of the graph to the file or string buffer
+    if (Outfile != NULL)
+        fprintf(Outfile, "N=%d\n", theGraph->N);
+    else
+    {
+        sprintf(numberStr, "N=%d\n", theGraph->N);
+        if (sb_ConcatString(outBuf, numberStr) != OK)
+            return NOTOK;
+    }
+
+    // Write the adjacency list of each vertex
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+    {
+        if (Outfile != NULL)
+            fprintf(Outfile, "%d:", v - zeroBasedOffset);
+        else
+        {
+            sprintf(numberStr, "%d:", v - zeroBasedOffset);
+            if (sb_ConcatString(outBuf, numberStr) != OK)
+                return NOTOK;
+        }
+
+        e = gp_GetLastArc(theGraph, v);
+        while (gp_IsArc(e))
+        {
+            if (gp_GetDirection(theGraph, e) != EDGEFLAG_DIRECTION_INONLY)
+            {
+                if (Outfile != NULL)
+                    fprintf(Outfile, " %d", gp_GetNeighbor(theGraph, e) - zeroBasedOffset);
+                else
+                {
+                    sprintf(numberStr, " %d", gp_GetNeighbor(theGraph, e) - zeroBasedOffset);
+                    if (sb_ConcatString(outBuf, numberStr) != OK)
+                        return NOTOK;
+                }
+            }
+
+            e = gp_GetPrevArc(theGraph, e);
+        }
+
+        // Write NIL at the end of the adjacency list (in zero-based I/O, NIL was -1)
+        if (Outfile != NULL)
+            fprintf(Outfile, " %d\n", (theGraph->internalFlags & FLAGS_ZEROBASEDIO) ? -1 : NIL);
+        else
+        {
+            sprintf(numberStr, " %d\n", (theGraph->internalFlags & FLAGS_ZEROBASEDIO) ? -1 : NIL);
+            if (sb_ConcatString(outBuf, numberStr) != OK)
+                return NOTOK;
+        }
+    }
+
+    return OK;
+}
+
+/********************************************************************
+ _WriteAdjMatrix()
+ Outputs upper triangular matrix representation capable of being
+ read by _ReadAdjMatrix().
+
+ theGraph and one of Outfile or theStrBuf must be non-NULL.
+
+ Note: This routine does not support digraphs and will return an
+       error if a directed edge is found.
+
+ returns OK for success, NOTOK for failure
+ ********************************************************************/
+
+int _WriteAdjMatrix(graphP theGraph, FILE *Outfile, strBufP outBuf)
+{
+    int v, e, K;
+    char *Row = NULL;
+    char numberStr[128];
+
+    if (theGraph == NULL || (Outfile == NULL && outBuf == NULL))
+        return NOTOK;
+
+    // Write the number of vertices in the graph to the file or string buffer
+    if (Outfile != NULL)
+        fprintf(Outfile, "%d\n", theGraph->N);
+    else
+    {
+        sprintf(numberStr, "%d\n", theGraph->N);
+        if (sb_ConcatString(outBuf, numberStr) != OK)
+            return NOTOK;
+    }
+
+    // Allocate memory for storing a string expression of one row at a time
+    Row = (char *)malloc((theGraph->N + 2) * sizeof(char));
+    if (Row == NULL)
+        return NOTOK;
+
+    // Construct the upper triangular matrix representation one row at a time
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+    {
+        for (K = gp_GetFirstVertex(theGraph); K <= v; K++)
+            Row[K - gp_GetFirstVertex(theGraph)] = ' ';
+        for (K = v + 1; gp_VertexInRange(theGraph, K); K++)
+            Row[K - gp_GetFirstVertex(theGraph)] = '0';
+
+        e = gp_GetFirstArc(theGraph, v);
+        while (gp_IsArc(e))
+        {
+            if (gp_GetDirection(theGraph, e) == EDGEFLAG_DIRECTION_INONLY)
+                return NOTOK;
+
+            if (gp_GetNeighbor(theGraph, e) > v)
+                Row[gp_GetNeighbor(theGraph, e) - gp_GetFirstVertex(theGraph)] = '1';
+
+            e = gp_GetNextArc(theGraph, e);
+        }
+
+        Row[theGraph->N] = '\n';
+        Row[theGraph->N + 1] = '\0';
+
+        // Write the row to the file or string buffer
+        if (Outfile != NULL)
+            fprintf(Outfile, "%s", Row);
+        else
+            sb_ConcatString(outBuf, Row);
+    }
+
+    free(Row);
+    return OK;
+}
+
+/********************************************************************
+ ********************************************************************/
+
+char _GetEdgeTypeChar(graphP theGraph, int e)
+{
+    char type = 'U';
+
+    if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
+        type = 'C';
+    else if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_FORWARD)
+        type = 'F';
+    else if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_PARENT)
+        type = 'P';
+    else if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_BACK)
+        type = 'B';
+    else if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_RANDOMTREE)
+        type = 'T';
+
+    return type;
+}
+
+/********************************************************************
+ ********************************************************************/
+
+char _GetVertexObstructionTypeChar(graphP theGraph, int v)
+{
+    char type = 'U';
+
+    if (gp_GetVertexObstructionType(theGraph, v) == VERTEX_OBSTRUCTIONTYPE_HIGH_RXW)
+        type = 'X';
+    else if (gp_GetVertexObstructionType(theGraph, v) == VERTEX_OBSTRUCTIONTYPE_LOW_RXW)
+        type = 'x';
+    if (gp_GetVertexObstructionType(theGraph, v) == VERTEX_OBSTRUCTIONTYPE_HIGH_RYW)
+        type = 'Y';
+    else if (gp_GetVertexObstructionType(theGraph, v) == VERTEX_OBSTRUCTIONTYPE_LOW_RYW)
+        type = 'y';
+
+    return type;
+}
+
+/********************************************************************
+ _WriteDebugInfo()
+ Writes adjacency list, but also includes the type value of each
+ edge (e.g. is it DFS child  arc, forward arc or back arc?), and
+ the L, A and DFSParent of each vertex.
+ ********************************************************************/
+
+int _WriteDebugInfo(graphP theGraph, FILE *Outfile)
+{
+    int v, e, EsizeOccupied;
+
+    if (theGraph == NULL || Outfile == NULL)
+        return NOTOK;
+
+    /* Print parent copy vertices and their adjacency lists */
+
+    fprintf(Outfile, "DEBUG N=%d M=%d\n", theGraph->N, theGraph->M);
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+    {
+        fprintf(Outfile, "%d(P=%d,lA=%d,LowPt=%d,v=%d):",
+                v, gp_GetVertexParent(theGraph, v),
+                gp_GetVertexLeastAncestor(theGraph, v),
+                gp_GetVertexLowpoint(theGraph, v),
+                gp_GetVertexIndex(theGraph, v));
+
+        e = gp_GetFirstArc(theGraph, v);
+        while (gp_IsArc(e))
+        {
+            fprintf(Outfile, " %d(e=%d)", gp_GetNeighbor(theGraph, e), e);
+            e = gp_GetNextArc(theGraph, e);
+        }
+
+        fprintf(Outfile, " %d\n", NIL);
+    }
+
+    /* Print any root copy vertices and their adjacency lists */
+
+    for (v = gp_GetFirstVirtualVertex(theGraph); gp_VirtualVertexInRange(theGraph, v); v++)
+    {
+        if (!gp_VirtualVertexInUse(theGraph, v))
+            continue;
+
+        fprintf(Outfile, "%d(copy of=%d, DFS child=%d):",
+                v, gp_GetVertexIndex(theGraph, v),
+                gp_GetDFSChildFromRoot(theGraph, v));
+
+        e = gp_GetFirstArc(theGraph, v);
+        while (gp_IsArc(e))
+        {
+            fprintf(Outfile, " %d(e=%d)", gp_GetNeighbor(theGraph, e), e);
+            e = gp_GetNextArc(theGraph, e);
+        }
+
+        fprintf(Outfile, " %d\n", NIL);
+    }
+
+    /* Print information about vertices and root copy (virtual) vertices */
+    fprintf(Outfile, "\nVERTEX INFORMATION\n");
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+    {
+        fprintf(Outfile, "V[%3d] index=%3d, type=%c, first arc=%3d, last arc=%3d\n",
+                v,
+                gp_GetVertexIndex(theGraph, v),
+                (gp_IsVirtualVertex(theGraph, v) ? 'X' : _GetVertexObstructionTypeChar(theGraph, v)),
+                gp_GetFirstArc(theGraph, v),
+                gp_GetLastArc(theGraph, v));
+    }
+    for (v = gp_GetFirstVirtualVertex(theGraph); gp_VirtualVertexInRange(theGraph, v); v++)
+    {
+        if (gp_VirtualVertexNotInUse(theGraph, v))
+            continue;
+
+        fprintf(Outfile, "V[%3d] index=%3d, type=%c, first arc=%3d, last arc=%3d\n",
+                v,
+                gp_GetVertexIndex(theGraph, v),
+                (gp_IsVirtualVertex(theGraph, v) ? 'X' : _GetVertexObstructionTypeChar(theGraph, v)),
+                gp_GetFirstArc(theGraph, v),
+                gp_GetLastArc(theGraph, v));
+    }
+
+    /* Print information about edges */
+
+    fprintf(Outfile, "\nEDGE INFORMATION\n");
+    EsizeOccupied = gp_EdgeInUseIndexBound(theGraph);
+    for (e = gp_GetFirstEdge(theGraph); e < EsizeOccupied; e++)
+    {
+        if (gp_EdgeInUse(theGraph, e))
+        {
+            fprintf(Outfile, "E[%3d] neighbor=%3d, type=%c, next arc=%3d, prev arc=%3d\n",
+                    e,
+                    gp_GetNeighbor(theGraph, e),
+                    _GetEdgeTypeChar(theGraph, e),
+                    gp_GetNextArc(theGraph, e),
+                    gp_GetPrevArc(theGraph, e));
+        }
+    }
+
+    return OK;
+}
+
+/********************************************************************
+ gp_Write()
+ Writes theGraph into the file.
+ Pass "stdout" or "stderr" to FileName to write to the corresponding stream
+ Pass WRITE_G6, WRITE_ADJLIST, WRITE_ADJMATRIX, or WRITE_DEBUGINFO for the Mode
+
+ NOTE: For digraphs, it is an error to use a mode other than WRITE_ADJLIST
+
+ Returns NOTOK on error, OK on success.
+ ********************************************************************/
+
+int gp_Write(graphP theGraph, char *FileName, int Mode)
+{
+    FILE *Outfile;
+    int RetVal;
+
+    if (theGraph == NULL || FileName == NULL)
+        return NOTOK;
+
+    if (strcmp(FileName, "nullwrite") == 0)
+        return OK;
+
+    if (strcmp(FileName, "stdout") == 0)
+        Outfile = stdout;
+    else if (strcmp(FileName, "stderr") == 0)
+        Outfile = stderr;
+    else if ((Outfile = fopen(FileName, WRITETEXT)) == NULL)
+        return NOTOK;
+
+    switch (Mode)
+    {
+    case WRITE_G6:
+        RetVal = _WriteGraphToG6FilePointer(theGraph, Outfile);
+        // Since G6WriteIterator closes Outfile, we don't want
+        // to try to fclose() again.
+        Outfile = NULL;
+        break;
+    case WRITE_ADJLIST:
+        RetVal = _WriteAdjList(theGraph, Outfile, NULL);
+        break;
+    case WRITE_ADJMATRIX:
+        RetVal = _WriteAdjMatrix(theGraph, Outfile, NULL);
+        break;
+    case WRITE_DEBUGINFO:
+        RetVal = _WriteDebugInfo(theGraph, Outfile);
+        break;
+    default:
+        RetVal = NOTOK;
+        break;
+    }
+
+    if (RetVal == OK)
+    {
+        void *extraData = NULL;
+        long extraDataSize;
+
+        RetVal = theGraph->functions.fpWritePostprocess(theGraph, &extraData, &extraDataSize);
+
+        if (extraData != NULL)
+        {
+            if (!fwrite(extraData, extraDataSize, 1, Outfile))
+                RetVal = NOTOK;
+            free(extraData);
+        }
+    }
+
+    if (strcmp(FileName, "stdout") == 0 || strcmp(FileName, "stderr") == 0)
+        fflush(Outfile);
+
+    else if (Outfile != NULL && fclose(Outfile) != 0)
+        RetVal = NOTOK;
+
+    return RetVal;
+}
+
+/********************************************************************
+ * gp_WriteToString()
+ *
+ * Writes the information of theGraph into a string that is returned
+ * to the caller via the pointer pointer pOutputStr.
+ * The string is owned by the caller and should be released with
+ * free() when the caller doesn't need the string anymore.
+ * The format of the content written into the returned string is based
+ * on the Mode parameter: WRITE_G6, WRITE_ADJLIST, or WRITE_ADJMATRIX
+ * (the WRITE_DEBUGINFO Mode is not supported at this time)
+
+ NOTE: For digraphs, it is an error to use a mode other than WRITE_ADJLIST
+
+ Returns NOTOK on error, or OK on success along with an allocated string
+         *pOutputStr that the caller must free()
+ ********************************************************************/
+int gp_WriteToString(graphP theGraph, char **pOutputStr, int Mode)
+{
+    int RetVal;
+    strBufP outBuf = sb_New(0);
+
+    if (theGraph == NULL || pOutputStr == NULL || outBuf == NULL)
+    {
+        sb_Free(&outBuf);
+        return NOTOK;
+    }
+
+    switch (Mode)
+    {
+    case WRITE_G6:
+        RetVal = _WriteGraphToG6String(theGraph, pOutputStr);
+        sb_Free(&outBuf);
+        break;
+    case WRITE_ADJLIST:
+        RetVal = _WriteAdjList(theGraph, NULL, outBuf);
+        break;
+    case WRITE_ADJMATRIX:
+        RetVal = _WriteAdjMatrix(theGraph, NULL, outBuf);
+        break;
+    default:
+        RetVal = NOTOK;
+        break;
+    }
+
+    if (RetVal == OK)
+    {
+        void *extraData = NULL;
+        long extraDataSize;
+
+        RetVal = theGraph->functions.fpWritePostprocess(theGraph, &extraData, &extraDataSize);
+
+        if (extraData != NULL)
+        {
+            for (int i = 0; i < extraDataSize; i++)
+                sb_ConcatChar(outBuf, ((char *)extraData)[i]);
+            free(extraData);
+        }
+    }
+
+    if (outBuf != NULL)
+        *pOutputStr = sb_TakeString(outBuf);
+    sb_Free(&outBuf);
+
+    return RetVal;
+}
+
+/********************************************************************
+ _WritePostprocess()
+
+ By default, no additional information is written.
+ ********************************************************************/
+
+int _WritePostprocess(graphP theGraph, void **pExtraData, long *pExtraDataSize)
+{
+    return OK;
+}
+
+/********************************************************************
+ _Log()
+
+ When the project is compiled with LOGGING enabled, this method writes
+ a string to the file PLANARITY.LOG in the current working directory.
+ On first write, the file is created or cleared.
+ Call this method with NULL to close the log file.
+ ********************************************************************/
+
+void _Log(char *Str)
+{
+    static FILE *logfile = NULL;
+
+    if (logfile == NULL)
+    {
+        if ((logfile = fopen("PLANARITY.LOG", WRITETEXT)) == NULL)
+            return;
+    }
+
+    if (Str != NULL)
+    {
+        fprintf(logfile, "%s", Str);
+        fflush(logfile);
+    }
+    else
+        fclose(logfile);
+}
+
+void _LogLine(char *Str)
+{
+    _Log(Str);
+    _Log("\n");
+}
+
+static char LogStr[512];
+
+char *_MakeLogStr1(char *format, int one)
+{
+    sprintf(LogStr, format, one);
+    return LogStr;
+}
+
+char *_MakeLogStr2(char *format, int one, int two)
+{
+    sprintf(LogStr, format, one, two);
+    return LogStr;
+}
+
+char *_MakeLogStr3(char *format, int one, int two, int three)
+{
+    sprintf(LogStr, format, one, two, three);
+    return LogStr;
+}
+
+char *_MakeLogStr4(char *format, int one, int two, int three, int four)
+{
+    sprintf(LogStr, format, one, two, three, four);
+    return LogStr;
+}
+
+char *_MakeLogStr5(char *format, int one, int two, int three, int four, int five)
+{
+    sprintf(LogStr, format, one, two, three, four, five);
+    return LogStr;
+}
-- 
2.43.0


From 8db7963ad4c2556096828668805f537a649a246f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:52 +0000
Subject: [PATCH 27/60] fix: _ReadAdjList() must reject input that ends early
 or is not numeric

---
 c/graphLib/io/graphIO.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 8c27f60..7d1ef37 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -150,10 +150,14 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
     {
         // Read the vertex number
         if (Infile != NULL)
-            fscanf(Infile, "%d", &indexValue);
+        {
+            if (fscanf(Infile, "%d", &indexValue) != 1)
+                return NOTOK;
+        }
         else
         {
-            sscanf(sb_GetReadString(inBuf), "%d", &indexValue);
+            if (sscanf(sb_GetReadString(inBuf), "%d", &indexValue) != 1)
+                return NOTOK;
             sb_ReadSkipInteger(inBuf);
         }
 
@@ -171,7 +175,11 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
         if (Infile != NULL)
             fgetc(Infile);
         else
+        {
+            if (*sb_GetReadString(inBuf) == '\0')
+                return NOTOK;
             sb_ReadSkipChar(inBuf);
+        }
 
         // If the vertex already has a non-empty adjacency list, then it is
         // the result of adding edges during processing of preceding vertices.
@@ -211,11 +219,15 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
         {
             // Read the value indicating the next adjacent vertex (or the list end)
             if (Infile != NULL)
-                fscanf(Infile, " %d ", &W);
+            {
+                if (fscanf(Infile, " %d ", &W) != 1)
+                    return NOTOK;
+            }
             else
             {
                 sb_ReadSkipWhitespace(inBuf);
-                sscanf(sb_GetReadString(inBuf), " %d ", &W);
+                if (sscanf(sb_GetReadString(inBuf), " %d ", &W) != 1)
+                    return NOTOK;
                 sb_ReadSkipInteger(inBuf);
                 sb_ReadSkipWhitespace(inBuf);
             }
-- 
2.43.0


From 3ad9102a2a9834c1ef2af38e74243c4f61759ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:16 +0000
Subject: [PATCH 28/60] fix: _WriteAdjList() must test theGraph before using it

---
 c/graphLib/io/graphIO.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 7d1ef37..57a5824 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -577,12 +577,14 @@ int _ReadPostprocess(graphP theGraph, void *extraData, long extraDataSize)
 int _WriteAdjList(graphP theGraph, FILE *Outfile, strBufP outBuf)
 {
     int v, e;
-    int zeroBasedOffset = (theGraph->internalFlags & FLAGS_ZEROBASEDIO) ? gp_GetFirstVertex(theGraph) : 0;
+    int zeroBasedOffset;
     char numberStr[128];
 
     if (theGraph == NULL || (Outfile == NULL && outBuf == NULL))
         return NOTOK;
 
+    zeroBasedOffset = (theGraph->internalFlags & FLAGS_ZEROBASEDIO) ? gp_GetFirstVertex(theGraph) : 0;
+
     // Write the number of vertices of the graph to the file or string buffer
     if (Outfile != NULL)
         fprintf(Outfile, "N=%d\n", theGraph->N);
-- 
2.43.0


From a8cec07b968cd91fdcdebb281267b1e247a3416b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:16 +0000
Subject: [PATCH 29/60] fix: _WriteAdjMatrix() must not leak its row and must
 report a failure to append it

---
 c/graphLib/io/graphIO.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 57a5824..7b76825 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -688,7 +688,10 @@ int _WriteAdjMatrix(graphP theGraph, FILE *Outfile, strBufP outBuf)
         while (gp_IsArc(e))
         {
             if (gp_GetDirection(theGraph, e) == EDGEFLAG_DIRECTION_INONLY)
+            {
+                free(Row);
                 return NOTOK;
+            }
 
             if (gp_GetNeighbor(theGraph, e) > v)
                 Row[gp_GetNeighbor(theGraph, e) - gp_GetFirstVertex(theGraph)] = '1';
@@ -702,8 +705,11 @@ int _WriteAdjMatrix(graphP theGraph, FILE *Outfile, strBufP outBuf)
         // Write the row to the file or string buffer
         if (Outfile != NULL)
             fprintf(Outfile, "%s", Row);
-        else
-            sb_ConcatString(outBuf, Row);
+        else if (sb_ConcatString(outBuf, Row) != OK)
+        {
+            free(Row);
+            return NOTOK;
+        }
     }
 
     free(Row);
-- 
2.43.0


From 6bc2adb476b71cda6b3ef1da4457edc5615baffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:16 +0000
Subject: [PATCH 30/60] fix: _ReadLEDAGraph() must reject input that ends
 early, is not numeric or names vertices out of range

---
 c/graphLib/io/graphIO.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 7b76825..9c54b80 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -338,30 +338,33 @@ int _ReadLEDAGraph(graphP theGraph, FILE *Infile)
     int zeroBasedOffset = gp_GetFirstVertex(theGraph) == 0 ? 1 : 0;
 
     /* Skip the lines that say LEDA.GRAPH and give the node and edge types */
-    fgets(Line, 255, Infile);
-
-    fgets(Line, 255, Infile);
-    fgets(Line, 255, Infile);
-
     /* Read the number of vertices N, initialize the graph, then skip N. */
-    fgets(Line, 255, Infile);
-    sscanf(Line, " %d", &N);
+    if (fgets(Line, 255, Infile) == NULL || fgets(Line, 255, Infile) == NULL ||
+        fgets(Line, 255, Infile) == NULL || fgets(Line, 255, Infile) == NULL ||
+        sscanf(Line, " %d", &N) != 1)
+        return NOTOK;
 
     if (gp_InitGraph(theGraph, N) != OK)
         return NOTOK;
 
     for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-        fgets(Line, 255, Infile);
+        if (fgets(Line, 255, Infile) == NULL)
+            return NOTOK;
 
     /* Read the number of edges */
-    fgets(Line, 255, Infile);
-    sscanf(Line, " %d", &M);
+    if (fgets(Line, 255, Infile) == NULL || sscanf(Line, " %d", &M) != 1)
+        return NOTOK;
 
     /* Read and add each edge, omitting loops and parallel edges */
     for (m = 0; m < M; m++)
     {
-        fgets(Line, 255, Infile);
-        sscanf(Line, " %d %d", &u, &v);
+        if (fgets(Line, 255, Infile) == NULL || sscanf(Line, " %d %d", &u, &v) != 2)
+            return NOTOK;
+
+        if (u < gp_GetFirstVertex(theGraph) + zeroBasedOffset || u > gp_GetLastVertex(theGraph) + zeroBasedOffset ||
+            v < gp_GetFirstVertex(theGraph) + zeroBasedOffset || v > gp_GetLastVertex(theGraph) + zeroBasedOffset)
+            return NOTOK;
+
         if (u != v && !gp_IsNeighbor(theGraph, u - zeroBasedOffset, v - zeroBasedOffset))
         {
             if ((ErrorCode = gp_DynamicAddEdge(theGraph, u - zeroBasedOffset, 0, v - zeroBasedOffset, 0)) != OK)
-- 
2.43.0


From a0fdc22785531cb35d430398fdedb7bc08ee7df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:37 +0000
Subject: [PATCH 31/60] fix: _ReadAdjMatrix() must not leave the last row's
 whitespace as extra data

---
 c/graphLib/io/graphIO.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 9c54b80..ca6f506 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -82,6 +82,12 @@ int _ReadAdjMatrix(graphP theGraph, FILE *Infile, strBufP inBuf)
         }
     }
 
+    // The whitespace after the last flag is not extra data
+    if (Infile != NULL)
+        fscanf(Infile, " ");
+    else
+        sb_ReadSkipWhitespace(inBuf);
+
     return OK;
 }
 
-- 
2.43.0


From b1a723ca8552b20acb4d4c12f5180a97c8deefa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:37 +0000
Subject: [PATCH 32/60] fix: gp_Read() must reject empty input and terminate
 the extra data it passes on

---
 c/graphLib/io/graphIO.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index ca6f506..78a2844 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -409,12 +409,21 @@ int gp_Read(graphP theGraph, char *FileName)
     char lineBuff[255];
     int RetVal;
 
+    if (theGraph == NULL || FileName == NULL)
+        return NOTOK;
+
     if (strcmp(FileName, "stdin") == 0)
         Infile = stdin;
     else if ((Infile = fopen(FileName, READTEXT)) == NULL)
         return NOTOK;
 
-    fgets(lineBuff, 255, Infile);
+    if (fgets(lineBuff, 255, Infile) == NULL)
+    {
+        if (Infile != stdin)
+            fclose(Infile);
+        return NOTOK;
+    }
+
     // Reset file pointer to beginning of file
     fseek(Infile, 0, SEEK_SET);
     if (strncmp(lineBuff, "LEDA.GRAPH", strlen("LEDA.GRAPH")) == 0)
@@ -458,7 +467,14 @@ int gp_Read(graphP theGraph, char *FileName)
         if (filePos < fileSize)
         {
             extraData = malloc(fileSize - filePos + 1);
-            fread(extraData, fileSize - filePos, 1, Infile);
+            if (extraData == NULL || fread(extraData, fileSize - filePos, 1, Infile) != 1)
+            {
+                free(extraData);
+                extraData = NULL;
+                RetVal = NOTOK;
+            }
+            else
+                ((char *)extraData)[fileSize - filePos] = '\0';
         }
         /*
                 // Useful for quick debugging of IO extensibility
-- 
2.43.0


From ab8d9d70c8f262f760d4120946fdd3b5fbd8eb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:37 +0000
Subject: [PATCH 33/60] fix: gp_ReadFromString() must reject a NULL string and
 free its buffer for LEDA input

---
 c/graphLib/io/graphIO.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 78a2844..8fd5271 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -517,7 +517,16 @@ int gp_ReadFromString(graphP theGraph, char *inputStr)
     int RetVal;
     bool extraDataAllowed = false;
 
-    strBufP inBuf = sb_New(0);
+    strBufP inBuf;
+
+    if (theGraph == NULL || inputStr == NULL)
+    {
+        if (inputStr != NULL)
+            free(inputStr);
+        return NOTOK;
+    }
+
+    inBuf = sb_New(0);
     if (inBuf == NULL)
     {
         if (inputStr != NULL)
@@ -537,6 +546,7 @@ int gp_ReadFromString(graphP theGraph, char *inputStr)
 
     if (strncmp(inputStr, "LEDA.GRAPH", strlen("LEDA.GRAPH")) == 0)
     {
+        sb_Free(&inBuf);
         if (inputStr != NULL)
             free(inputStr);
         return NOTOK;
-- 
2.43.0


From dee0fc1a91057eceed4e9fec7888d14642665031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:10 +0000
Subject: [PATCH 34/60] fix: _ReadGraphFromG6FilePointer() and
 _WriteGraphToG6FilePointer() must not leak the file they consume

---
 c/graphLib/io/g6-read-iterator.c  | 5 +++++
 c/graphLib/io/g6-write-iterator.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index ebfc42f..0cd0cbc 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -815,6 +815,8 @@ int _ReadGraphFromG6FilePointer(graphP pGraphToRead, FILE *g6Infile)
 	if (exitCode != OK)
 	{
 		ErrorMessage("Unable to allocate G6ReadIterator.\n");
+		if (g6Infile != NULL && g6Infile != stdin)
+			fclose(g6Infile);
 		return exitCode;
 	}
 
@@ -823,6 +825,9 @@ int _ReadGraphFromG6FilePointer(graphP pGraphToRead, FILE *g6Infile)
 	if (exitCode != OK)
 	{
 		ErrorMessage("Unable to begin .g6 read iteration.\n");
+		// The file must be closed here if no string-or-file container owns it yet
+		if (pG6ReadIterator->g6Input == NULL && g6Infile != NULL && g6Infile != stdin)
+			fclose(g6Infile);
 
 		if (freeG6ReadIterator(&pG6ReadIterator) != OK)
 			ErrorMessage("Unable to free G6ReadIterator.\n");
diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index ddaa05f..514dfbc 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -615,6 +615,8 @@ int _WriteGraphToG6FilePointer(graphP pGraph, FILE *g6Outfile)
 	if (exitCode != OK)
 	{
 		ErrorMessage("Unable to allocate G6WriteIterator.\n");
+		if (g6Outfile != NULL && g6Outfile != stdout && g6Outfile != stderr)
+			fclose(g6Outfile);
 		freeG6WriteIterator(&pG6WriteIterator);
 		return exitCode;
 	}
@@ -624,6 +626,9 @@ int _WriteGraphToG6FilePointer(graphP pGraph, FILE *g6Outfile)
 	if (exitCode != OK)
 	{
 		ErrorMessage("Unable to begin G6 write iteration.\n");
+		// The file must be closed here if no string-or-file container owns it yet
+		if (pG6WriteIterator->g6Output == NULL && g6Outfile != NULL && g6Outfile != stdout && g6Outfile != stderr)
+			fclose(g6Outfile);
 		freeG6WriteIterator(&pG6WriteIterator);
 		return exitCode;
 	}
-- 
2.43.0


From b0a4345be3470edc1fef45d31b73625fc4248341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:10 +0000
Subject: [PATCH 35/60] fix: gp_Write() must not write extra data to the file
 that the .g6 writer has closed

---
 c/graphLib/io/graphIO.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 8fd5271..1456913 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -942,7 +942,8 @@ int gp_Write(graphP theGraph, char *FileName, int Mode)
         break;
     }
 
-    if (RetVal == OK)
+    // The possibility of "extra data" is not allowed for .g6 format
+    if (RetVal == OK && Mode != WRITE_G6)
     {
         void *extraData = NULL;
         long extraDataSize;
@@ -958,7 +959,10 @@ int gp_Write(graphP theGraph, char *FileName, int Mode)
     }
 
     if (strcmp(FileName, "stdout") == 0 || strcmp(FileName, "stderr") == 0)
-        fflush(Outfile);
+    {
+        if (Outfile != NULL)
+            fflush(Outfile);
+    }
 
     else if (Outfile != NULL && fclose(Outfile) != 0)
         RetVal = NOTOK;
-- 
2.43.0


From 7d65846cd668134ea49258d3aa17f8bfcb852458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:10 +0000
Subject: [PATCH 36/60] fix: gp_WriteToString() must report a failure to build
 the string and not hand out a part of it

---
 c/graphLib/io/graphIO.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 1456913..1b925d6 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -1014,7 +1014,8 @@ int gp_WriteToString(graphP theGraph, char **pOutputStr, int Mode)
         break;
     }
 
-    if (RetVal == OK)
+    // The possibility of "extra data" is not allowed for .g6 format
+    if (RetVal == OK && Mode != WRITE_G6)
     {
         void *extraData = NULL;
         long extraDataSize;
@@ -1024,13 +1025,21 @@ int gp_WriteToString(graphP theGraph, char **pOutputStr, int Mode)
         if (extraData != NULL)
         {
             for (int i = 0; i < extraDataSize; i++)
-                sb_ConcatChar(outBuf, ((char *)extraData)[i]);
+                if (sb_ConcatChar(outBuf, ((char *)extraData)[i]) != OK)
+                {
+                    RetVal = NOTOK;
+                    break;
+                }
             free(extraData);
         }
     }
 
     if (outBuf != NULL)
-        *pOutputStr = sb_TakeString(outBuf);
+    {
+        *pOutputStr = RetVal == OK ? sb_TakeString(outBuf) : NULL;
+        if (*pOutputStr == NULL)
+            RetVal = NOTOK;
+    }
     sb_Free(&outBuf);
 
     return RetVal;
-- 
2.43.0


From ebbb52bbe366ae2675029ad20bb70b626d2e4688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:30 +0000
Subject: [PATCH 37/60] fix: _DrawPlanar_ReadPostprocess() must reject drawing
 data that ends early

---
 .../graphDrawPlanar_Extensions.c              | 23 ++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index 92aee53..fdde45d 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -50,7 +50,7 @@ void _DrawPlanar_FreeContext(void *);
 /****************************************************************************
  * DRAWPLANAR_ID - the variable used to hold the integer identifier for this
  * extension, enabling this feature's extension context to be distinguished
- * from other features' extension contexts that may be attached to a graph.
+ * from other features' extension contexts that may be attached to a graph.
  ****************************************************************************/
 
 int DRAWPLANAR_ID = 0;
@@ -573,29 +573,36 @@ int  _DrawPlanar_ReadPostprocess(graphP theGraph, void *extraData, long extraDat
                 return NOTOK;
 
             // Advance past the start tag
-            extraData = (void *) ((char *) extraData + strlen(line)+1);
+            extraData = strchr(extraData, '\n');
 
             // Read the N lines of vertex information
             for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
             {
-                sscanf(extraData, " %d%c %d %d %d", &tempInt, &tempChar,
+                if (extraData == NULL ||
+                    sscanf(extraData, " %d%c %d %d %d", &tempInt, &tempChar,
                               &context->VI[v].pos,
                               &context->VI[v].start,
-                              &context->VI[v].end);
+                              &context->VI[v].end) != 5)
+                    return NOTOK;
 
-                extraData = strchr(extraData, '\n') + 1;
+                extraData = strchr((char *) extraData + 1, '\n');
             }
 
             // Read the lines that contain edge information
             EsizeOccupied = gp_EdgeInUseIndexBound(theGraph);
             for (e = gp_GetFirstEdge(theGraph); e < EsizeOccupied; e++)
             {
-                sscanf(extraData, " %d%c %d %d %d", &tempInt, &tempChar,
+                if (gp_EdgeNotInUse(theGraph, e))
+                    continue;
+
+                if (extraData == NULL ||
+                    sscanf(extraData, " %d%c %d %d %d", &tempInt, &tempChar,
                               &context->E[e].pos,
                               &context->E[e].start,
-                              &context->E[e].end);
+                              &context->E[e].end) != 5)
+                    return NOTOK;
 
-                extraData = strchr(extraData, '\n') + 1;
+                extraData = strchr((char *) extraData + 1, '\n');
             }
         }
 
-- 
2.43.0


From f5f60641eb19bcfd9d99fb700c253d08d9a77ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:04 +0000
Subject: [PATCH 38/60] fix: TextFilesEqual() must not ignore one extra
 character at the end of the second file

---
 c/planarityApp/planarityUtils.c | 1296 +++++++++++++++----------------
 1 file changed, 648 insertions(+), 648 deletions(-)

diff --git a/c/planarityApp/planarityUtils.c b/c/planarityApp/planarityUtils.c
index 308f96f..12b49fc 100644
--- a/c/planarityApp/planarityUtils.c
+++ b/c/planarityApp/planarityUtils.c
@@ -1,648 +1,648 @@
-/*
-Copyright (c) 1997-2022, John M. Boyer
-All rights reserved.
-See the LICENSE.TXT file for licensing information.
-*/
-
-#include "planarity.h"
-
-/****************************************************************************
- Configuration
- ****************************************************************************/
-
-char Mode = 'r',
-	 OrigOut = 'n',
-	 EmbeddableOut = 'n',
-	 ObstructedOut = 'n',
-	 AdjListsForEmbeddingsOut = 'n';
-
-void Reconfigure(void)
-{
-	fflush(stdin);
-
-	Prompt("\nDo you want to \n"
-		   "  Randomly generate graphs (r),\n"
-		   "  Specify a graph (s),\n"
-		   "  Randomly generate a maximal planar graph (m), or\n"
-		   "  Randomly generate a non-planar graph (n)?");
-	scanf(" %c", &Mode);
-
-	Mode = tolower(Mode);
-	if (!strchr("rsmn", Mode))
-		Mode = 's';
-
-	if (Mode == 'r')
-	{
-		Message("\nNOTE: The directories for the graphs you want must exist.\n\n");
-
-		Prompt("Do you want original graphs in directory 'random' (last 10 max)?");
-		scanf(" %c", &OrigOut);
-
-		Prompt("Do you want adj. matrix of embeddable graphs in directory 'embedded' (last 10 max))?");
-		scanf(" %c", &EmbeddableOut);
-
-		Prompt("Do you want adj. matrix of obstructed graphs in directory 'obstructed' (last 10 max)?");
-		scanf(" %c", &ObstructedOut);
-
-		Prompt("Do you want adjacency list format of embeddings in directory 'adjlist' (last 10 max)?");
-		scanf(" %c", &AdjListsForEmbeddingsOut);
-	}
-
-	FlushConsole(stdout);
-}
-
-void FlushConsole(FILE *f)
-{
-	fflush(f);
-}
-
-void Prompt(char *message)
-{
-	Message(message);
-	FlushConsole(stdout);
-}
-
-/****************************************************************************
- ****************************************************************************/
-
-void SaveAsciiGraph(graphP theGraph, char *filename)
-{
-	int e, EsizeOccupied, vertexLabelFix;
-	FILE *outfile = fopen(filename, WRITETEXT);
-
-	// The filename may specify a directory that doesn't exist
-	if (outfile == NULL)
-	{
-		char *messageFormat = "Failed to write to \"%.*s\"\nMake the directory if not present\n";
-		char messageContents[MAXLINE + 1];
-		int charsAvailForStrToInclude = (int)(MAXLINE - strlen(messageFormat));
-		sprintf(messageContents, messageFormat, charsAvailForStrToInclude, filename);
-		ErrorMessage(messageContents);
-		return;
-	}
-
-	// If filename includes path elements, remove them before writing the file's name to the file
-	if (strrchr(filename, FILE_DELIMITER))
-		filename = strrchr(filename, FILE_DELIMITER) + 1;
-
-	fprintf(outfile, "%s\n", filename);
-
-	// This edge list file format uses 1-based vertex numbering, and the current code
-	// internally uses 1-based indexing by default, so this vertex label 'fix' adds zero
-	// But earlier code used 0-based indexing and added one on output, so we replicate
-	// that behavior in case the current code has been compiled with zero-based indexing.
-	vertexLabelFix = 1 - gp_GetFirstVertex(theGraph);
-
-	// Iterate over the edges of the graph
-	EsizeOccupied = gp_EdgeInUseIndexBound(theGraph);
-	for (e = gp_GetFirstEdge(theGraph); e < EsizeOccupied; e += 2)
-	{
-		// Only output edges that haven't been deleted (i.e. skip the edge holes)
-		if (gp_EdgeInUse(theGraph, e))
-		{
-			fprintf(outfile, "%d %d\n",
-					gp_GetNeighbor(theGraph, e) + vertexLabelFix,
-					gp_GetNeighbor(theGraph, e + 1) + vertexLabelFix);
-		}
-	}
-
-	// Since vertex numbers are at least 1, this indicates the end of the edge list
-	fprintf(outfile, "0 0\n");
-
-	fclose(outfile);
-}
-
-/****************************************************************************
- ReadTextFileIntoString()
- Reads the file content indicated by infileName using a single fread(), and
- returns the result in an allocated string. The caller needs to free() the
- returned string when done with it.
- Returns NULL on error, or an allocated string containing the file content.
- ****************************************************************************/
-
-char *ReadTextFileIntoString(char *infileName)
-{
-	FILE *infile = NULL;
-	char *inputString = NULL;
-
-	if ((infile = fopen(infileName, "r")) == NULL)
-		ErrorMessage("fopen() failed.\n");
-	else
-	{
-		long filePos = ftell(infile);
-		long fileSize;
-
-		fseek(infile, 0, SEEK_END);
-		fileSize = ftell(infile);
-		fseek(infile, filePos, SEEK_SET);
-
-		if ((inputString = (char *)malloc((fileSize + 1) * sizeof(char))) != NULL)
-		{
-			long bytesRead = fread((void *)inputString, 1, fileSize, infile);
-			inputString[bytesRead] = '\0';
-		}
-
-		fclose(infile);
-	}
-
-	return inputString;
-}
-
-/****************************************************************************
- * TextFileMatchesString()
- *
- * Compares the text file content from the file named 'theFilename' with
- * the content of 'theString'.
- *
- * Textual equality is measured as content equality except for suppressing
- * differences between CRLF and LF-only line delimiters.
- *
- * Returns TRUE if the contents are textually equal, FALSE otherwise
- ****************************************************************************/
-
-int TextFileMatchesString(char *theFilename, char *theString)
-{
-	FILE *infile = NULL;
-	int Result = TRUE;
-
-	if (theFilename != NULL)
-		infile = fopen(theFilename, "r");
-
-	if (infile == NULL)
-		Result = FALSE;
-	else
-	{
-		int c1 = 0, c2 = 0, stringIndex = 0;
-
-		// Read the input file to the end
-		while ((c1 = fgetc(infile)) != EOF)
-		{
-			// Want to suppress distinction between lines ending with CRLF versus LF
-			// by looking at only LF characters in the file
-			if (c1 == '\r')
-				continue;
-
-			// Since c1 now has a non-CR, non-EOF from the input file,  we now also
-			// get a character from the string, except ignoring CRs again
-			while ((c2 = (int)theString[stringIndex++]) == '\r')
-				;
-
-			// If c1 doesn't equal c2 (whether c2 is a null terminator or a different character)
-			// then the file content doesn't match the string
-			if (c1 != c2)
-			{
-				Result = FALSE;
-				break;
-			}
-		}
-
-		// If the outer while loop got to the end of the file
-		if (c1 == EOF)
-		{
-			// Then get another character from the string, once again suppressing CRs, and then...
-			while ((c2 = (int)theString[stringIndex++]) == '\r')
-				;
-			// Test whether or not the second file also ends, same as the first.
-			if (c2 != '\0')
-				Result = FALSE;
-		}
-	}
-
-	if (infile != NULL)
-		fclose(infile);
-	return Result;
-}
-
-/****************************************************************************
- ****************************************************************************/
-
-int TextFilesEqual(char *file1Name, char *file2Name)
-{
-	FILE *infile1 = NULL, *infile2 = NULL;
-	int Result = TRUE;
-
-	infile1 = fopen(file1Name, "r");
-	infile2 = fopen(file2Name, "r");
-
-	if (infile1 == NULL || infile2 == NULL)
-		Result = FALSE;
-	else
-	{
-		int c1 = 0, c2 = 0;
-
-		// Read the first file to the end
-		while ((c1 = fgetc(infile1)) != EOF)
-		{
-			// Want to suppress distinction between lines ending with CRLF versus LF
-			if (c1 == '\r')
-				continue;
-
-			// Get a char from the second file, except suppress CR again
-			while ((c2 = fgetc(infile2)) == '\r')
-				;
-
-			// If we got a char from the first file, but not from the second
-			// then the second file is shorter, so files are not equal
-			if (c2 == EOF)
-			{
-				Result = FALSE;
-				break;
-			}
-
-			// If we got a char from second file, but not equal to char from
-			// first file, then files are not equal
-			if (c1 != c2)
-			{
-				Result = FALSE;
-				break;
-			}
-		}
-
-		// If we got to the end of the first file without breaking the loop...
-		if (c1 == EOF)
-		{
-			// Then, once again, suppress CRs first, and then...
-			while ((c2 = fgetc(infile2)) == '\r')
-				;
-			// Test whether or not the second file also ends, same as the first.
-			if (fgetc(infile2) != EOF)
-				Result = FALSE;
-		}
-	}
-
-	if (infile1 != NULL)
-		fclose(infile1);
-	if (infile2 != NULL)
-		fclose(infile2);
-	return Result;
-}
-
-/****************************************************************************
- ****************************************************************************/
-
-int BinaryFilesEqual(char *file1Name, char *file2Name)
-{
-	FILE *infile1 = NULL, *infile2 = NULL;
-	int Result = TRUE;
-
-	infile1 = fopen(file1Name, "r");
-	infile2 = fopen(file2Name, "r");
-
-	if (infile1 == NULL || infile2 == NULL)
-		Result = FALSE;
-	else
-	{
-		int c1 = 0, c2 = 0;
-
-		// Read the first file to the end
-		while ((c1 = fgetc(infile1)) != EOF)
-		{
-			// If we got a char from the first file, but not from the second
-			// then the second file is shorter, so files are not equal
-			if ((c2 = fgetc(infile2)) == EOF)
-			{
-				Result = FALSE;
-				break;
-			}
-
-			// If we got a char from second file, but not equal to char from
-			// first file, then files are not equal
-			if (c1 != c2)
-			{
-				Result = FALSE;
-				break;
-			}
-		}
-
-		// If we got to the end of the first file without breaking the loop...
-		if (c1 == EOF)
-		{
-			// Then attempt to read from the second file to ensure it also ends.
-			if (fgetc(infile2) != EOF)
-				Result = FALSE;
-		}
-	}
-
-	if (infile1 != NULL)
-		fclose(infile1);
-	if (infile2 != NULL)
-		fclose(infile2);
-	return Result;
-}
-
-/****************************************************************************
- ALGORITHM FLAGS/SPECIFIERS
-****************************************************************************/
-
-char *GetAlgorithmFlags(void)
-{
-	return "C = command (algorithm implementation to run)\n"
-		   "    -p = Planar embedding and Kuratowski subgraph isolation\n"
-		   "    -d = Planar graph drawing by visibility representation\n"
-		   "    -o = Outerplanar embedding and obstruction isolation\n"
-		   "    -2 = Search for subgraph homeomorphic to K_{2,3}\n"
-		   "    -3 = Search for subgraph homeomorphic to K_{3,3}\n"
-		   "    -4 = Search for subgraph homeomorphic to K_4\n"
-		   "\n";
-}
-
-char *GetAlgorithmSpecifiers(void)
-{
-	return "P. Planar embedding and Kuratowski subgraph isolation\n"
-		   "D. Planar graph drawing by visibility representation\n"
-		   "O. Outerplanar embedding and obstruction isolation\n"
-		   "2. Search for subgraph homeomorphic to K_{2,3}\n"
-		   "3. Search for subgraph homeomorphic to K_{3,3}\n"
-		   "4. Search for subgraph homeomorphic to K_4\n";
-}
-
-char *GetAlgorithmChoices(void)
-{
-	return "pdo234";
-}
-
-/****************************************************************************
- ****************************************************************************/
-
-int GetEmbedFlags(char command)
-{
-	int embedFlags = 0;
-
-	switch (command)
-	{
-	case 'o':
-		embedFlags = EMBEDFLAGS_OUTERPLANAR;
-		break;
-	case 'p':
-		embedFlags = EMBEDFLAGS_PLANAR;
-		break;
-	case 'd':
-		embedFlags = EMBEDFLAGS_DRAWPLANAR;
-		break;
-	case '2':
-		embedFlags = EMBEDFLAGS_SEARCHFORK23;
-		break;
-	case '3':
-		embedFlags = EMBEDFLAGS_SEARCHFORK33;
-		break;
-	case '4':
-		embedFlags = EMBEDFLAGS_SEARCHFORK4;
-		break;
-	}
-
-	return embedFlags;
-}
-
-/****************************************************************************
- ****************************************************************************/
-
-char *GetAlgorithmName(char command)
-{
-	char *algorithmName = "UnsupportedAlgorithm";
-
-	switch (command)
-	{
-	case 'p':
-		algorithmName = "PlanarEmbed";
-		break;
-	case 'd':
-		algorithmName = DRAWPLANAR_NAME;
-		break;
-	case 'o':
-		algorithmName = "OuterplanarEmbed";
-		break;
-	case '2':
-		algorithmName = K23SEARCH_NAME;
-		break;
-	case '3':
-		algorithmName = K33SEARCH_NAME;
-		break;
-	case '4':
-		algorithmName = K4SEARCH_NAME;
-		break;
-	}
-
-	return algorithmName;
-}
-
-/****************************************************************************
- ****************************************************************************/
-
-char *GetTransformationName(char command)
-{
-	char *transformationName = "UnsupportedTransformation";
-
-	switch (command)
-	{
-	case 'g':
-		transformationName = "G6";
-		break;
-	case 'a':
-		transformationName = "AdjList";
-		break;
-	case 'm':
-		transformationName = "AdjMat";
-		break;
-	}
-
-	return transformationName;
-}
-
-char *GetSupportedOutputChoices(void)
-{
-	return "G. G6 format\n"
-		   "A. Adjacency List format\n"
-		   "M. Adjacency Matrix format\n";
-}
-
-char *GetSupportedOutputFormats(void)
-{
-	return "gam";
-}
-
-/****************************************************************************
- ****************************************************************************/
-
-char *GetBaseName(int baseFlag)
-{
-	char *transformationName = baseFlag ? "1-based" : "0-based";
-
-	return transformationName;
-}
-
-/****************************************************************************
- ****************************************************************************/
-
-void AttachAlgorithm(graphP theGraph, char command)
-{
-	switch (command)
-	{
-	case 'd':
-		gp_AttachDrawPlanar(theGraph);
-		break;
-	case '2':
-		gp_AttachK23Search(theGraph);
-		break;
-	case '3':
-		gp_AttachK33Search(theGraph);
-		break;
-	case '4':
-		gp_AttachK4Search(theGraph);
-		break;
-	}
-}
-
-/****************************************************************************
- A string used to construct input and output filenames.
-
- The SUFFIXMAXLENGTH is 32 to accommodate ".out.txt" + ".render.txt" + ".test.txt"
- ****************************************************************************/
-
-#define FILENAMEMAXLENGTH 128
-#define ALGORITHMNAMEMAXLENGTH 32
-#define SUFFIXMAXLENGTH 32
-
-char theFileName[FILENAMEMAXLENGTH + 1 + ALGORITHMNAMEMAXLENGTH + 1 + SUFFIXMAXLENGTH + 1];
-
-/****************************************************************************
- ConstructInputFilename()
- Returns a string not owned by the caller (do not free string).
- String contains infileName content if infileName is non-NULL.
- If infileName is NULL, then the user is asked to supply a name.
- Returns NULL on error, or a non-NULL string on success.
- ****************************************************************************/
-
-char *ConstructInputFilename(char *infileName)
-{
-	if (infileName == NULL)
-	{
-		Prompt("Enter graph file name: ");
-		fflush(stdin);
-		scanf(" %s", theFileName);
-
-		if (!strchr(theFileName, '.'))
-			strcat(theFileName, ".txt");
-	}
-	else
-	{
-		if (strlen(infileName) > FILENAMEMAXLENGTH)
-		{
-			ErrorMessage("Filename is too long");
-			return NULL;
-		}
-		strcpy(theFileName, infileName);
-	}
-
-	return theFileName;
-}
-
-/****************************************************************************
- ConstructPrimaryOutputFilename()
- Returns a string not owned by the caller (do not free string).
- Reuses the same memory space as ConstructInputFilename().
- If outfileName is non-NULL, then the result string contains its content.
- If outfileName is NULL, then the infileName and the command's algorithm name
- are used to construct a string.
- Returns non-NULL string
- ****************************************************************************/
-
-char *ConstructPrimaryOutputFilename(char *infileName, char *outfileName, char command)
-{
-	char *algorithmName = GetAlgorithmName(command);
-
-	if (outfileName == NULL)
-	{
-		// The output filename is based on the input filename
-		if (theFileName != infileName)
-			strcpy(theFileName, infileName);
-
-		// If the primary output filename has not been given, then we use
-		// the input filename + the algorithm name + a simple suffix
-		if (strlen(algorithmName) <= ALGORITHMNAMEMAXLENGTH)
-		{
-			strcat(theFileName, ".");
-			strcat(theFileName, algorithmName);
-		}
-		else
-			ErrorMessage("Algorithm Name is too long, so it will not be used in output filename.");
-
-		strcat(theFileName, ".out.txt");
-	}
-	else
-	{
-		if (strlen(outfileName) > FILENAMEMAXLENGTH)
-		{
-			// The output filename is based on the input filename
-			if (theFileName != infileName)
-				strcpy(theFileName, infileName);
-
-			if (strlen(algorithmName) <= ALGORITHMNAMEMAXLENGTH)
-			{
-				strcat(theFileName, ".");
-				strcat(theFileName, algorithmName);
-			}
-			strcat(theFileName, ".out.txt");
-			char *messageFormat = "Outfile filename is too long. Result placed in \"%.*s\"";
-			char messageContents[MAXLINE + 1];
-			int charsAvailForStrToInclude = (int)(MAXLINE - strlen(messageFormat));
-			sprintf(messageContents, messageFormat, charsAvailForStrToInclude, theFileName);
-			ErrorMessage(messageContents);
-		}
-		else
-		{
-			if (theFileName != outfileName)
-				strcpy(theFileName, outfileName);
-		}
-	}
-
-	return theFileName;
-}
-
-/****************************************************************************
- ConstructTransformationExpectedResultFilename()
- Returns a string whose ownership will be transferred to the caller (must free string).
- If outfileName is non-NULL, then the result string contains its content.
- If outfileName is NULL, then the infileName, the command's algorithm name, and
- whether or not this output file correspond to the actual (0) or expected (1)
- output file from testing are used to construct a string.
- Returns non-NULL string
- ****************************************************************************/
-
-int ConstructTransformationExpectedResultFilename(char *infileName, char **outfileName, char command, int baseFlag)
-{
-	int Result = OK;
-	char *baseName = GetBaseName(baseFlag);
-	char *transformationName = GetTransformationName(command);
-	int infileNameLen = -1;
-
-	if (infileName == NULL || (infileNameLen = strlen(infileName)) < 1)
-	{
-		ErrorMessage("Cannot construct transformation output filename for empty infileName.\n");
-		return NOTOK;
-	}
-
-	if ((*outfileName) == NULL)
-	{
-		(*outfileName) = (char *)calloc(infileNameLen + 1 + strlen(baseName) + 1 + strlen(transformationName) + ((command == 'g') ? strlen(".out.g6") : strlen(".out.txt")) + 1, sizeof(char));
-
-		if ((*outfileName) == NULL)
-		{
-			ErrorMessage("Unable to allocate memory for output filename.\n");
-			return NOTOK;
-		}
-
-		strcpy((*outfileName), infileName);
-		strcat((*outfileName), ".");
-		strcat((*outfileName), baseName);
-		strcat((*outfileName), ".");
-		strcat((*outfileName), transformationName);
-		strcat((*outfileName), command == 'g' ? ".out.g6" : ".out.txt");
-	}
-	else
-	{
-		ErrorMessage("outfileName already allocated.\n");
-		Result = NOTOK;
-	}
-
-	return Result;
-}
+/*
+Copyright (c) 1997-2022, John M. Boyer
+All rights reserved.
+See the LICENSE.TXT file for licensing information.
+*/
+
+#include "planarity.h"
+
+/****************************************************************************
+ Configuration
+ ****************************************************************************/
+
+char Mode = 'r',
+	 OrigOut = 'n',
+	 EmbeddableOut = 'n',
+	 ObstructedOut = 'n',
+	 AdjListsForEmbeddingsOut = 'n';
+
+void Reconfigure(void)
+{
+	fflush(stdin);
+
+	Prompt("\nDo you want to \n"
+		   "  Randomly generate graphs (r),\n"
+		   "  Specify a graph (s),\n"
+		   "  Randomly generate a maximal planar graph (m), or\n"
+		   "  Randomly generate a non-planar graph (n)?");
+	scanf(" %c", &Mode);
+
+	Mode = tolower(Mode);
+	if (!strchr("rsmn", Mode))
+		Mode = 's';
+
+	if (Mode == 'r')
+	{
+		Message("\nNOTE: The directories for the graphs you want must exist.\n\n");
+
+		Prompt("Do you want original graphs in directory 'random' (last 10 max)?");
+		scanf(" %c", &OrigOut);
+
+		Prompt("Do you want adj. matrix of embeddable graphs in directory 'embedded' (last 10 max))?");
+		scanf(" %c", &EmbeddableOut);
+
+		Prompt("Do you want adj. matrix of obstructed graphs in directory 'obstructed' (last 10 max)?");
+		scanf(" %c", &ObstructedOut);
+
+		Prompt("Do you want adjacency list format of embeddings in directory 'adjlist' (last 10 max)?");
+		scanf(" %c", &AdjListsForEmbeddingsOut);
+	}
+
+	FlushConsole(stdout);
+}
+
+void FlushConsole(FILE *f)
+{
+	fflush(f);
+}
+
+void Prompt(char *message)
+{
+	Message(message);
+	FlushConsole(stdout);
+}
+
+/****************************************************************************
+ ****************************************************************************/
+
+void SaveAsciiGraph(graphP theGraph, char *filename)
+{
+	int e, EsizeOccupied, vertexLabelFix;
+	FILE *outfile = fopen(filename, WRITETEXT);
+
+	// The filename may specify a directory that doesn't exist
+	if (outfile == NULL)
+	{
+		char *messageFormat = "Failed to write to \"%.*s\"\nMake the directory if not present\n";
+		char messageContents[MAXLINE + 1];
+		int charsAvailForStrToInclude = (int)(MAXLINE - strlen(messageFormat));
+		sprintf(messageContents, messageFormat, charsAvailForStrToInclude, filename);
+		ErrorMessage(messageContents);
+		return;
+	}
+
+	// If filename includes path elements, remove them before writing the file's name to the file
+	if (strrchr(filename, FILE_DELIMITER))
+		filename = strrchr(filename, FILE_DELIMITER) + 1;
+
+	fprintf(outfile, "%s\n", filename);
+
+	// This edge list file format uses 1-based vertex numbering, and the current code
+	// internally uses 1-based indexing by default, so this vertex label 'fix' adds zero
+	// But earlier code used 0-based indexing and added one on output, so we replicate
+	// that behavior in case the current code has been compiled with zero-based indexing.
+	vertexLabelFix = 1 - gp_GetFirstVertex(theGraph);
+
+	// Iterate over the edges of the graph
+	EsizeOccupied = gp_EdgeInUseIndexBound(theGraph);
+	for (e = gp_GetFirstEdge(theGraph); e < EsizeOccupied; e += 2)
+	{
+		// Only output edges that haven't been deleted (i.e. skip the edge holes)
+		if (gp_EdgeInUse(theGraph, e))
+		{
+			fprintf(outfile, "%d %d\n",
+					gp_GetNeighbor(theGraph, e) + vertexLabelFix,
+					gp_GetNeighbor(theGraph, e + 1) + vertexLabelFix);
+		}
+	}
+
+	// Since vertex numbers are at least 1, this indicates the end of the edge list
+	fprintf(outfile, "0 0\n");
+
+	fclose(outfile);
+}
+
+/****************************************************************************
+ ReadTextFileIntoString()
+ Reads the file content indicated by infileName using a single fread(), and
+ returns the result in an allocated string. The caller needs to free() the
+ returned string when done with it.
+ Returns NULL on error, or an allocated string containing the file content.
+ ****************************************************************************/
+
+char *ReadTextFileIntoString(char *infileName)
+{
+	FILE *infile = NULL;
+	char *inputString = NULL;
+
+	if ((infile = fopen(infileName, "r")) == NULL)
+		ErrorMessage("fopen() failed.\n");
+	else
+	{
+		long filePos = ftell(infile);
+		long fileSize;
+
+		fseek(infile, 0, SEEK_END);
+		fileSize = ftell(infile);
+		fseek(infile, filePos, SEEK_SET);
+
+		if ((inputString = (char *)malloc((fileSize + 1) * sizeof(char))) != NULL)
+		{
+			long bytesRead = fread((void *)inputString, 1, fileSize, infile);
+			inputString[bytesRead] = '\0';
+		}
+
+		fclose(infile);
+	}
+
+	return inputString;
+}
+
+/****************************************************************************
+ * TextFileMatchesString()
+ *
+ * Compares the text file content from the file named 'theFilename' with
+ * the content of 'theString'.
+ *
+ * Textual equality is measured as content equality except for suppressing
+ * differences between CRLF and LF-only line delimiters.
+ *
+ * Returns TRUE if the contents are textually equal, FALSE otherwise
+ ****************************************************************************/
+
+int TextFileMatchesString(char *theFilename, char *theString)
+{
+	FILE *infile = NULL;
+	int Result = TRUE;
+
+	if (theFilename != NULL)
+		infile = fopen(theFilename, "r");
+
+	if (infile == NULL)
+		Result = FALSE;
+	else
+	{
+		int c1 = 0, c2 = 0, stringIndex = 0;
+
+		// Read the input file to the end
+		while ((c1 = fgetc(infile)) != EOF)
+		{
+			// Want to suppress distinction between lines ending with CRLF versus LF
+			// by looking at only LF characters in the file
+			if (c1 == '\r')
+				continue;
+
+			// Since c1 now has a non-CR, non-EOF from the input file,  we now also
+			// get a character from the string, except ignoring CRs again
+			while ((c2 = (int)theString[stringIndex++]) == '\r')
+				;
+
+			// If c1 doesn't equal c2 (whether c2 is a null terminator or a different character)
+			// then the file content doesn't match the string
+			if (c1 != c2)
+			{
+				Result = FALSE;
+				break;
+			}
+		}
+
+		// If the outer while loop got to the end of the file
+		if (c1 == EOF)
+		{
+			// Then get another character from the string, once again suppressing CRs, and then...
+			while ((c2 = (int)theString[stringIndex++]) == '\r')
+				;
+			// Test whether or not the second file also ends, same as the first.
+			if (c2 != '\0')
+				Result = FALSE;
+		}
+	}
+
+	if (infile != NULL)
+		fclose(infile);
+	return Result;
+}
+
+/****************************************************************************
+ ****************************************************************************/
+
+int TextFilesEqual(char *file1Name, char *file2Name)
+{
+	FILE *infile1 = NULL, *infile2 = NULL;
+	int Result = TRUE;
+
+	infile1 = fopen(file1Name, "r");
+	infile2 = fopen(file2Name, "r");
+
+	if (infile1 == NULL || infile2 == NULL)
+		Result = FALSE;
+	else
+	{
+		int c1 = 0, c2 = 0;
+
+		// Read the first file to the end
+		while ((c1 = fgetc(infile1)) != EOF)
+		{
+			// Want to suppress distinction between lines ending with CRLF versus LF
+			if (c1 == '\r')
+				continue;
+
+			// Get a char from the second file, except suppress CR again
+			while ((c2 = fgetc(infile2)) == '\r')
+				;
+
+			// If we got a char from the first file, but not from the second
+			// then the second file is shorter, so files are not equal
+			if (c2 == EOF)
+			{
+				Result = FALSE;
+				break;
+			}
+
+			// If we got a char from second file, but not equal to char from
+			// first file, then files are not equal
+			if (c1 != c2)
+			{
+				Result = FALSE;
+				break;
+			}
+		}
+
+		// If we got to the end of the first file without breaking the loop...
+		if (c1 == EOF)
+		{
+			// Then, once again, suppress CRs first, and then...
+			while ((c2 = fgetc(infile2)) == '\r')
+				;
+			// Test whether or not the second file also ends, same as the first.
+			if (c2 != EOF)
+				Result = FALSE;
+		}
+	}
+
+	if (infile1 != NULL)
+		fclose(infile1);
+	if (infile2 != NULL)
+		fclose(infile2);
+	return Result;
+}
+
+/****************************************************************************
+ ****************************************************************************/
+
+int BinaryFilesEqual(char *file1Name, char *file2Name)
+{
+	FILE *infile1 = NULL, *infile2 = NULL;
+	int Result = TRUE;
+
+	infile1 = fopen(file1Name, "r");
+	infile2 = fopen(file2Name, "r");
+
+	if (infile1 == NULL || infile2 == NULL)
+		Result = FALSE;
+	else
+	{
+		int c1 = 0, c2 = 0;
+
+		// Read the first file to the end
+		while ((c1 = fgetc(infile1)) != EOF)
+		{
+			// If we got a char from the first file, but not from the second
+			// then the second file is shorter, so files are not equal
+			if ((c2 = fgetc(infile2)) == EOF)
+			{
+				Result = FALSE;
+				break;
+			}
+
+			// If we got a char from second file, but not equal to char from
+			// first file, then files are not equal
+			if (c1 != c2)
+			{
+				Result = FALSE;
+				break;
+			}
+		}
+
+		// If we got to the end of the first file without breaking the loop...
+		if (c1 == EOF)
+		{
+			// Then attempt to read from the second file to ensure it also ends.
+			if (fgetc(infile2) != EOF)
+				Result = FALSE;
+		}
+	}
+
+	if (infile1 != NULL)
+		fclose(infile1);
+	if (infile2 != NULL)
+		fclose(infile2);
+	return Result;
+}
+
+/****************************************************************************
+ ALGORITHM FLAGS/SPECIFIERS
+****************************************************************************/
+
+char *GetAlgorithmFlags(void)
+{
+	return "C = command (algorithm implementation to run)\n"
+		   "    -p = Planar embedding and Kuratowski subgraph isolation\n"
+		   "    -d = Planar graph drawing by visibility representation\n"
+		   "    -o = Outerplanar embedding and obstruction isolation\n"
+		   "    -2 = Search for subgraph homeomorphic to K_{2,3}\n"
+		   "    -3 = Search for subgraph homeomorphic to K_{3,3}\n"
+		   "    -4 = Search for subgraph homeomorphic to K_4\n"
+		   "\n";
+}
+
+char *GetAlgorithmSpecifiers(void)
+{
+	return "P. Planar embedding and Kuratowski subgraph isolation\n"
+		   "D. Planar graph drawing by visibility representation\n"
+		   "O. Outerplanar embedding and obstruction isolation\n"
+		   "2. Search for subgraph homeomorphic to K_{2,3}\n"
+		   "3. Search for subgraph homeomorphic to K_{3,3}\n"
+		   "4. Search for subgraph homeomorphic to K_4\n";
+}
+
+char *GetAlgorithmChoices(void)
+{
+	return "pdo234";
+}
+
+/****************************************************************************
+ ****************************************************************************/
+
+int GetEmbedFlags(char command)
+{
+	int embedFlags = 0;
+
+	switch (command)
+	{
+	case 'o':
+		embedFlags = EMBEDFLAGS_OUTERPLANAR;
+		break;
+	case 'p':
+		embedFlags = EMBEDFLAGS_PLANAR;
+		break;
+	case 'd':
+		embedFlags = EMBEDFLAGS_DRAWPLANAR;
+		break;
+	case '2':
+		embedFlags = EMBEDFLAGS_SEARCHFORK23;
+		break;
+	case '3':
+		embedFlags = EMBEDFLAGS_SEARCHFORK33;
+		break;
+	case '4':
+		embedFlags = EMBEDFLAGS_SEARCHFORK4;
+		break;
+	}
+
+	return embedFlags;
+}
+
+/****************************************************************************
+ ****************************************************************************/
+
+char *GetAlgorithmName(char command)
+{
+	char *algorithmName = "UnsupportedAlgorithm";
+
+	switch (command)
+	{
+	case 'p':
+		algorithmName = "PlanarEmbed";
+		break;
+	case 'd':
+		algorithmName = DRAWPLANAR_NAME;
+		break;
+	case 'o':
+		algorithmName = "OuterplanarEmbed";
+		break;
+	case '2':
+		algorithmName = K23SEARCH_NAME;
+		break;
+	case '3':
+		algorithmName = K33SEARCH_NAME;
+		break;
+	case '4':
+		algorithmName = K4SEARCH_NAME;
+		break;
+	}
+
+	return algorithmName;
+}
+
+/****************************************************************************
+ ****************************************************************************/
+
+char *GetTransformationName(char command)
+{
+	char *transformationName = "UnsupportedTransformation";
+
+	switch (command)
+	{
+	case 'g':
+		transformationName = "G6";
+		break;
+	case 'a':
+		transformationName = "AdjList";
+		break;
+	case 'm':
+		transformationName = "AdjMat";
+		break;
+	}
+
+	return transformationName;
+}
+
+char *GetSupportedOutputChoices(void)
+{
+	return "G. G6 format\n"
+		   "A. Adjacency List format\n"
+		   "M. Adjacency Matrix format\n";
+}
+
+char *GetSupportedOutputFormats(void)
+{
+	return "gam";
+}
+
+/****************************************************************************
+ ****************************************************************************/
+
+char *GetBaseName(int baseFlag)
+{
+	char *transformationName = baseFlag ? "1-based" : "0-based";
+
+	return transformationName;
+}
+
+/****************************************************************************
+ ****************************************************************************/
+
+void AttachAlgorithm(graphP theGraph, char command)
+{
+	switch (command)
+	{
+	case 'd':
+		gp_AttachDrawPlanar(theGraph);
+		break;
+	case '2':
+		gp_AttachK23Search(theGraph);
+		break;
+	case '3':
+		gp_AttachK33Search(theGraph);
+		break;
+	case '4':
+		gp_AttachK4Search(theGraph);
+		break;
+	}
+}
+
+/****************************************************************************
+ A string used to construct input and output filenames.
+
+ The SUFFIXMAXLENGTH is 32 to accommodate ".out.txt" + ".render.txt" + ".test.txt"
+ ****************************************************************************/
+
+#define FILENAMEMAXLENGTH 128
+#define ALGORITHMNAMEMAXLENGTH 32
+#define SUFFIXMAXLENGTH 32
+
+char theFileName[FILENAMEMAXLENGTH + 1 + ALGORITHMNAMEMAXLENGTH + 1 + SUFFIXMAXLENGTH + 1];
+
+/****************************************************************************
+ ConstructInputFilename()
+ Returns a string not owned by the caller (do not free string).
+ String contains infileName content if infileName is non-NULL.
+ If infileName is NULL, then the user is asked to supply a name.
+ Returns NULL on error, or a non-NULL string on success.
+ ****************************************************************************/
+
+char *ConstructInputFilename(char *infileName)
+{
+	if (infileName == NULL)
+	{
+		Prompt("Enter graph file name: ");
+		fflush(stdin);
+		scanf(" %s", theFileName);
+
+		if (!strchr(theFileName, '.'))
+			strcat(theFileName, ".txt");
+	}
+	else
+	{
+		if (strlen(infileName) > FILENAMEMAXLENGTH)
+		{
+			ErrorMessage("Filename is too long");
+			return NULL;
+		}
+		strcpy(theFileName, infileName);
+	}
+
+	return theFileName;
+}
+
+/****************************************************************************
+ ConstructPrimaryOutputFilename()
+ Returns a string not owned by the caller (do not free string).
+ Reuses the same memory space as ConstructInputFilename().
+ If outfileName is non-NULL, then the result string contains its content.
+ If outfileName is NULL, then the infileName and the command's algorithm name
+ are used to construct a string.
+ Returns non-NULL string
+ ****************************************************************************/
+
+char *ConstructPrimaryOutputFilename(char *infileName, char *outfileName, char command)
+{
+	char *algorithmName = GetAlgorithmName(command);
+
+	if (outfileName == NULL)
+	{
+		// The output filename is based on the input filename
+		if (theFileName != infileName)
+			strcpy(theFileName, infileName);
+
+		// If the primary output filename has not been given, then we use
+		// the input filename + the algorithm name + a simple suffix
+		if (strlen(algorithmName) <= ALGORITHMNAMEMAXLENGTH)
+		{
+			strcat(theFileName, ".");
+			strcat(theFileName, algorithmName);
+		}
+		else
+			ErrorMessage("Algorithm Name is too long, so it will not be used in output filename.");
+
+		strcat(theFileName, ".out.txt");
+	}
+	else
+	{
+		if (strlen(outfileName) > FILENAMEMAXLENGTH)
+		{
+			// The output filename is based on the input filename
+			if (theFileName != infileName)
+				strcpy(theFileName, infileName);
+
+			if (strlen(algorithmName) <= ALGORITHMNAMEMAXLENGTH)
+			{
+				strcat(theFileName, ".");
+				strcat(theFileName, algorithmName);
+			}
+			strcat(theFileName, ".out.txt");
+			char *messageFormat = "Outfile filename is too long. Result placed in \"%.*s\"";
+			char messageContents[MAXLINE + 1];
+			int charsAvailForStrToInclude = (int)(MAXLINE - strlen(messageFormat));
+			sprintf(messageContents, messageFormat, charsAvailForStrToInclude, theFileName);
+			ErrorMessage(messageContents);
+		}
+		else
+		{
+			if (theFileName != outfileName)
+				strcpy(theFileName, outfileName);
+		}
+	}
+
+	return theFileName;
+}
+
+/****************************************************************************
+ ConstructTransformationExpectedResultFilename()
+ Returns a string whose ownership will be transferred to the caller (must free string).
+ If outfileName is non-NULL, then the result string contains its content.
+ If outfileName is NULL, then the infileName, the command's algorithm name, and
+ whether or not this output file correspond to the actual (0) or expected (1)
+ output file from testing are used to construct a string.
+ Returns non-NULL string
+ ****************************************************************************/
+
+int ConstructTransformationExpectedResultFilename(char *infileName, char **outfileName, char command, int baseFlag)
+{
+	int Result = OK;
+	char *baseName = GetBaseName(baseFlag);
+	char *transformationName = GetTransformationName(command);
+	int infileNameLen = -1;
+
+	if (infileName == NULL || (infileNameLen = strlen(infileName)) < 1)
+	{
+		ErrorMessage("Cannot construct transformation output filename for empty infileName.\n");
+		return NOTOK;
+	}
+
+	if ((*outfileName) == NULL)
+	{
+		(*outfileName) = (char *)calloc(infileNameLen + 1 + strlen(baseName) + 1 + strlen(transformationName) + ((command == 'g') ? strlen(".out.g6") : strlen(".out.txt")) + 1, sizeof(char));
+
+		if ((*outfileName) == NULL)
+		{
+			ErrorMessage("Unable to allocate memory for output filename.\n");
+			return NOTOK;
+		}
+
+		strcpy((*outfileName), infileName);
+		strcat((*outfileName), ".");
+		strcat((*outfileName), baseName);
+		strcat((*outfileName), ".");
+		strcat((*outfileName), transformationName);
+		strcat((*outfileName), command == 'g' ? ".out.g6" : ".out.txt");
+	}
+	else
+	{
+		ErrorMessage("outfileName already allocated.\n");
+		Result = NOTOK;
+	}
+
+	return Result;
+}
-- 
2.43.0


From e6011a8a216be94727fa852ee9c7ba90cfca10d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:04 +0000
Subject: [PATCH 39/60] fix: TextFileMatchesString() must compare non-ASCII
 characters and stop at the end of the string

---
 c/planarityApp/planarityUtils.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c/planarityApp/planarityUtils.c b/c/planarityApp/planarityUtils.c
index 12b49fc..0379925 100644
--- a/c/planarityApp/planarityUtils.c
+++ b/c/planarityApp/planarityUtils.c
@@ -184,12 +184,12 @@ int TextFileMatchesString(char *theFilename, char *theString)
 
 			// Since c1 now has a non-CR, non-EOF from the input file,  we now also
 			// get a character from the string, except ignoring CRs again
-			while ((c2 = (int)theString[stringIndex++]) == '\r')
+			while ((c2 = (unsigned char)theString[stringIndex++]) == '\r')
 				;
 
 			// If c1 doesn't equal c2 (whether c2 is a null terminator or a different character)
 			// then the file content doesn't match the string
-			if (c1 != c2)
+			if (c1 != c2 || c2 == '\0')
 			{
 				Result = FALSE;
 				break;
@@ -200,7 +200,7 @@ int TextFileMatchesString(char *theFilename, char *theString)
 		if (c1 == EOF)
 		{
 			// Then get another character from the string, once again suppressing CRs, and then...
-			while ((c2 = (int)theString[stringIndex++]) == '\r')
+			while ((c2 = (unsigned char)theString[stringIndex++]) == '\r')
 				;
 			// Test whether or not the second file also ends, same as the first.
 			if (c2 != '\0')
-- 
2.43.0


From eb025c72810a750564ec3cc12b2fbe219456f76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:04 +0000
Subject: [PATCH 40/60] fix: _GetRandomNumber() must not overflow while mixing
 the random bits

---
 c/graphLib/graphUtils.c | 5088 +++++++++++++++++++--------------------
 1 file changed, 2544 insertions(+), 2544 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 9f542fc..a7d9706 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1,2544 +1,2544 @@
-/*
-Copyright (c) 1997-2022, John M. Boyer
-All rights reserved.
-See the LICENSE.TXT file for licensing information.
-*/
-
-#include <stdlib.h>
-
-#include "graphStructures.h"
-#include "graph.h"
-
-/* Imported functions for FUNCTION POINTERS */
-
-extern int _EmbeddingInitialize(graphP theGraph);
-extern int _SortVertices(graphP theGraph);
-extern void _EmbedBackEdgeToDescendant(graphP theGraph, int RootSide, int RootVertex, int W, int WPrevLink);
-extern void _WalkUp(graphP theGraph, int v, int e);
-extern int _WalkDown(graphP theGraph, int v, int RootVertex);
-extern int _MergeBicomps(graphP theGraph, int v, int RootVertex, int W, int WPrevLink);
-extern void _MergeVertex(graphP theGraph, int W, int WPrevLink, int R);
-extern int _HandleBlockedBicomp(graphP theGraph, int v, int RootVertex, int R);
-extern int _HandleInactiveVertex(graphP theGraph, int BicompRoot, int *pW, int *pWPrevLink);
-extern int _MarkDFSPath(graphP theGraph, int ancestor, int descendant);
-extern int _EmbedPostprocess(graphP theGraph, int v, int edgeEmbeddingResult);
-extern int _CheckEmbeddingIntegrity(graphP theGraph, graphP origGraph);
-extern int _CheckObstructionIntegrity(graphP theGraph, graphP origGraph);
-extern int _ReadPostprocess(graphP theGraph, void *extraData, long extraDataSize);
-extern int _WritePostprocess(graphP theGraph, void **pExtraData, long *pExtraDataSize);
-
-/* Internal util functions for FUNCTION POINTERS */
-
-int _HideVertex(graphP theGraph, int vertex);
-void _HideEdge(graphP theGraph, int arcPos);
-void _RestoreEdge(graphP theGraph, int arcPos);
-int _ContractEdge(graphP theGraph, int e);
-int _IdentifyVertices(graphP theGraph, int u, int v, int eBefore);
-int _RestoreVertex(graphP theGraph);
-
-/********************************************************************
- Private functions, except exported within library
- ********************************************************************/
-
-void _InitIsolatorContext(graphP theGraph);
-void _ClearVisitedFlags(graphP theGraph);
-void _ClearVertexVisitedFlags(graphP theGraph, int);
-void _ClearEdgeVisitedFlags(graphP theGraph);
-int _ClearVisitedFlagsInBicomp(graphP theGraph, int BicompRoot);
-int _ClearVisitedFlagsInOtherBicomps(graphP theGraph, int BicompRoot);
-void _ClearVisitedFlagsInUnembeddedEdges(graphP theGraph);
-int _FillVertexVisitedInfoInBicomp(graphP theGraph, int BicompRoot, int FillValue);
-int _ClearVertexTypeInBicomp(graphP theGraph, int BicompRoot);
-
-int _HideInternalEdges(graphP theGraph, int vertex);
-int _RestoreInternalEdges(graphP theGraph, int stackBottom);
-int _RestoreHiddenEdges(graphP theGraph, int stackBottom);
-
-int _GetBicompSize(graphP theGraph, int BicompRoot);
-int _DeleteUnmarkedEdgesInBicomp(graphP theGraph, int BicompRoot);
-int _ClearInvertedFlagsInBicomp(graphP theGraph, int BicompRoot);
-
-void _InitFunctionTable(graphP theGraph);
-
-/********************************************************************
- Private functions.
- ********************************************************************/
-
-void _InitVertices(graphP theGraph);
-void _InitEdges(graphP theGraph);
-
-void _ClearGraph(graphP theGraph);
-
-int _GetRandomNumber(int NMin, int NMax);
-
-/* Private functions for which there are FUNCTION POINTERS */
-
-void _InitVertexRec(graphP theGraph, int v);
-void _InitVertexInfo(graphP theGraph, int v);
-void _InitEdgeRec(graphP theGraph, int e);
-
-int _InitGraph(graphP theGraph, int N);
-void _ReinitializeGraph(graphP theGraph);
-int _EnsureArcCapacity(graphP theGraph, int requiredArcCapacity);
-
-/********************************************************************
- gp_New()
- Constructor for graph object.
- Can create two graphs if restricted to no dynamic memory.
- ********************************************************************/
-
-graphP gp_New(void)
-{
-    graphP theGraph = (graphP)malloc(sizeof(baseGraphStructure));
-
-    if (theGraph != NULL)
-    {
-        theGraph->E = NULL;
-        theGraph->V = NULL;
-        theGraph->VI = NULL;
-
-        theGraph->BicompRootLists = NULL;
-        theGraph->sortedDFSChildLists = NULL;
-        theGraph->theStack = NULL;
-
-        theGraph->extFace = NULL;
-
-        theGraph->edgeHoles = NULL;
-
-        theGraph->extensions = NULL;
-
-        _InitFunctionTable(theGraph);
-
-        _ClearGraph(theGraph);
-    }
-
-    return theGraph;
-}
-
-/********************************************************************
- _InitFunctionTable()
-
- If you add functions to the function table, then they must be
- initialized here, but you must also add the new function pointer
- to the definition of the graphFunctionTable in graphFunctionTable.h
-
- Function headers for the functions used to initialize the table are
- classified at the top of this file as either imported from other
- compilation units (extern) or private to this compilation unit.
- Search for FUNCTION POINTERS in this file to see where to add the
- function header.
- ********************************************************************/
-
-void _InitFunctionTable(graphP theGraph)
-{
-    theGraph->functions.fpEmbeddingInitialize = _EmbeddingInitialize;
-    theGraph->functions.fpEmbedBackEdgeToDescendant = _EmbedBackEdgeToDescendant;
-    theGraph->functions.fpWalkUp = _WalkUp;
-    theGraph->functions.fpWalkDown = _WalkDown;
-    theGraph->functions.fpMergeBicomps = _MergeBicomps;
-    theGraph->functions.fpMergeVertex = _MergeVertex;
-    theGraph->functions.fpHandleBlockedBicomp = _HandleBlockedBicomp;
-    theGraph->functions.fpHandleInactiveVertex = _HandleInactiveVertex;
-    theGraph->functions.fpEmbedPostprocess = _EmbedPostprocess;
-    theGraph->functions.fpMarkDFSPath = _MarkDFSPath;
-    theGraph->functions.fpCheckEmbeddingIntegrity = _CheckEmbeddingIntegrity;
-    theGraph->functions.fpCheckObstructionIntegrity = _CheckObstructionIntegrity;
-
-    theGraph->functions.fpInitGraph = _InitGraph;
-    theGraph->functions.fpReinitializeGraph = _ReinitializeGraph;
-    theGraph->functions.fpEnsureArcCapacity = _EnsureArcCapacity;
-    theGraph->functions.fpSortVertices = _SortVertices;
-
-    theGraph->functions.fpReadPostprocess = _ReadPostprocess;
-    theGraph->functions.fpWritePostprocess = _WritePostprocess;
-
-    theGraph->functions.fpHideEdge = _HideEdge;
-    theGraph->functions.fpRestoreEdge = _RestoreEdge;
-    theGraph->functions.fpHideVertex = _HideVertex;
-    theGraph->functions.fpRestoreVertex = _RestoreVertex;
-    theGraph->functions.fpContractEdge = _ContractEdge;
-    theGraph->functions.fpIdentifyVertices = _IdentifyVertices;
-}
-
-/********************************************************************
- gp_InitGraph()
- Allocates memory for vertex and edge records now that N is known.
- The arcCapacity is set to (2 * DEFAULT_EDGE_LIMIT * N) unless it
-     has already been set by gp_EnsureArcCapacity()
-
- For V, we need 2N vertex records, N for vertices and N for virtual vertices (root copies).
-
- For VI, we need N vertexInfo records.
-
- For E, we need arcCapacity edge records.
-
- The BicompRootLists and sortedDFSChildLists are of size N and start out empty.
-
- The stack, initially empty, is made big enough for a pair of integers
-     per edge record (2 * arcCapacity), or 6N integers if the arcCapacity
-     was set below the default value.
-
- The edgeHoles stack, initially empty, is set to arcCapacity / 2,
-     which is big enough to push every edge (to indicate an edge
-     you only need to indicate one of its two edge records)
-
-  Returns OK on success, NOTOK on all failures.
-          On NOTOK, graph extensions are freed so that the graph is
-          returned to the post-condition of gp_New().
- ********************************************************************/
-
-int gp_InitGraph(graphP theGraph, int N)
-{
-    // valid params check
-    if (theGraph == NULL || N <= 0)
-        return NOTOK;
-
-    // Should not call init a second time; use reinit
-    if (theGraph->N)
-        return NOTOK;
-
-    return theGraph->functions.fpInitGraph(theGraph, N);
-}
-
-int _InitGraph(graphP theGraph, int N)
-{
-    int Vsize, VIsize, Esize, stackSize;
-
-    // Compute the vertex and edge capacities of the graph
-    theGraph->N = N;
-    theGraph->NV = N;
-    theGraph->arcCapacity = theGraph->arcCapacity > 0 ? theGraph->arcCapacity : 2 * DEFAULT_EDGE_LIMIT * N;
-    VIsize = gp_PrimaryVertexIndexBound(theGraph);
-    Vsize = gp_VertexIndexBound(theGraph);
-    Esize = gp_EdgeIndexBound(theGraph);
-
-    // Stack size is 2 integers per arc, or 6 integers per vertex in case of small arcCapacity
-    stackSize = 2 * Esize;
-    stackSize = stackSize < 6 * N ? 6 * N : stackSize;
-
-    // Allocate memory as described above
-    if ((theGraph->V = (vertexRecP)calloc(Vsize, sizeof(vertexRec))) == NULL ||
-        (theGraph->VI = (vertexInfoP)calloc(VIsize, sizeof(vertexInfo))) == NULL ||
-        (theGraph->E = (edgeRecP)calloc(Esize, sizeof(edgeRec))) == NULL ||
-        (theGraph->BicompRootLists = LCNew(VIsize)) == NULL ||
-        (theGraph->sortedDFSChildLists = LCNew(VIsize)) == NULL ||
-        (theGraph->theStack = sp_New(stackSize)) == NULL ||
-        (theGraph->extFace = (extFaceLinkRecP)calloc(Vsize, sizeof(extFaceLinkRec))) == NULL ||
-        (theGraph->edgeHoles = sp_New(Esize / 2)) == NULL ||
-        0)
-    {
-        _ClearGraph(theGraph);
-        return NOTOK;
-    }
-
-    // Initialize memory
-    _InitVertices(theGraph);
-    _InitEdges(theGraph);
-    _InitIsolatorContext(theGraph);
-
-    return OK;
-}
-
-/********************************************************************
- _InitVertices()
- ********************************************************************/
-void _InitVertices(graphP theGraph)
-{
-#if NIL == 0
-    memset(theGraph->V, NIL_CHAR, gp_VertexIndexBound(theGraph) * sizeof(vertexRec));
-    memset(theGraph->VI, NIL_CHAR, gp_PrimaryVertexIndexBound(theGraph) * sizeof(vertexInfo));
-    memset(theGraph->extFace, NIL_CHAR, gp_VertexIndexBound(theGraph) * sizeof(extFaceLinkRec));
-#elif NIL == -1
-    int v;
-
-    memset(theGraph->V, NIL_CHAR, gp_VertexIndexBound(theGraph) * sizeof(vertexRec));
-    memset(theGraph->VI, NIL_CHAR, gp_PrimaryVertexIndexBound(theGraph) * sizeof(vertexInfo));
-    memset(theGraph->extFace, NIL_CHAR, gp_VertexIndexBound(theGraph) * sizeof(extFaceLinkRec));
-
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-        gp_InitVertexFlags(theGraph, v);
-
-#else
-    int v;
-
-    // Initialize primary vertices
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-    {
-        _InitVertexRec(theGraph, v);
-        _InitVertexInfo(theGraph, v);
-        gp_SetExtFaceVertex(theGraph, v, 0, NIL);
-        gp_SetExtFaceVertex(theGraph, v, 1, NIL);
-    }
-
-    // Initialize virtual vertices
-    for (v = gp_GetFirstVirtualVertex(theGraph); gp_VirtualVertexInRange(theGraph, v); v++)
-    {
-        _InitVertexRec(theGraph, v);
-        gp_SetExtFaceVertex(theGraph, v, 0, NIL);
-        gp_SetExtFaceVertex(theGraph, v, 1, NIL);
-    }
-#endif
-}
-
-/********************************************************************
- _InitEdges()
- ********************************************************************/
-void _InitEdges(graphP theGraph)
-{
-#if NIL == 0
-    memset(theGraph->E, NIL_CHAR, gp_EdgeIndexBound(theGraph) * sizeof(edgeRec));
-#elif NIL == -1
-    int e, Esize;
-
-    memset(theGraph->E, NIL_CHAR, gp_EdgeIndexBound(theGraph) * sizeof(edgeRec));
-
-    Esize = gp_EdgeIndexBound(theGraph);
-    for (e = gp_GetFirstEdge(theGraph); e < Esize; e++)
-        gp_InitEdgeFlags(theGraph, e);
-
-#else
-    int e, Esize;
-
-    Esize = gp_EdgeIndexBound(theGraph);
-    for (e = gp_GetFirstEdge(theGraph); e < Esize; e++)
-        _InitEdgeRec(theGraph, e);
-#endif
-}
-
-/********************************************************************
- gp_ReinitializeGraph()
- Reinitializes a graph, restoring it to the state it was in immediately
- after gp_InitGraph() processed it.
- ********************************************************************/
-
-void gp_ReinitializeGraph(graphP theGraph)
-{
-    if (theGraph == NULL || theGraph->N <= 0)
-        return;
-
-    theGraph->functions.fpReinitializeGraph(theGraph);
-}
-
-void _ReinitializeGraph(graphP theGraph)
-{
-    theGraph->M = 0;
-    theGraph->internalFlags = theGraph->embedFlags = 0;
-
-    _InitVertices(theGraph);
-    _InitEdges(theGraph);
-    _InitIsolatorContext(theGraph);
-
-    LCReset(theGraph->BicompRootLists);
-    LCReset(theGraph->sortedDFSChildLists);
-    sp_ClearStack(theGraph->theStack);
-    sp_ClearStack(theGraph->edgeHoles);
-}
-
-/********************************************************************
- gp_GetArcCapacity()
- Returns the arcCapacity of theGraph, which is twice the maximum
- number of edges that can be added to the theGraph.
- ********************************************************************/
-int gp_GetArcCapacity(graphP theGraph)
-{
-    return theGraph->arcCapacity;
-}
-
-/********************************************************************
- gp_EnsureArcCapacity()
- This method ensures that theGraph is or will be capable of storing
- at least requiredArcCapacity edge records.  Two edge records are
- needed per edge.
-
- This method is most performant when invoked immediately after
- gp_New(), since it must only set the arcCapacity and then let
- normal initialization to occur through gp_InitGraph().
-
- This method is also a constant time operation if the graph already
- has at least the requiredArcCapacity, since it will return OK
- without making any structural changes.
-
- This method is generally more performant if it is invoked before
- attaching extensions to the graph.  Some extensions associate
- parallel data with edge records, which is a faster operation if
- the associated data is created and initialized only after the
- proper arcCapacity is specified.
-
- If the graph has been initialized and has a lower arc capacity,
- then the array of edge records is reallocated to satisfy the
- requiredArcCapacity.  The new array contains the old edges and
- edge holes at the same locations, and all newly created edge records
- are initialized.
-
- Also, if the arc capacity must be increased, then the
- arcCapacity member of theGraph is changed and both
- theStack and edgeHoles are expanded (since the sizes of both
- are based on the arc capacity).
-
- Extensions that add to data associated with edges must overload
- this method to ensure capacity in the parallel extension data
- structures.  An extension can return NOTOK if it does not
- support arc capacity expansion.  The extension function will
- not be called if arcCapacity is expanded before the graph is
- initialized, and it is assumed that extensions will allocate
- parallel data structures according to the arc capacity.
-
- If an extension supports arc capacity expansion, then higher
- performance can be obtained by using the method of unhooking
- the initializers for individual edge records before invoking
- the superclass version of fpEnsureArcCapacity().  Ideally,
- application authors should ensure the proper arc capacity before
- attaching extensions to achieve better performance.
-
- Returns NOTOK on failure to reallocate the edge record array to
-         satisfy the requiredArcCapacity, or if the requested
-         capacity is odd
-         OK if reallocation is not required or if reallocation succeeds
- ********************************************************************/
-int gp_EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
-{
-    if (theGraph == NULL || requiredArcCapacity <= 0)
-        return NOTOK;
-
-    // Train callers to only ask for an even number of arcs, since
-    // two are required per edge or directed edge.
-    if (requiredArcCapacity & 1)
-        return NOTOK;
-
-    if (theGraph->arcCapacity >= requiredArcCapacity)
-        return OK;
-
-    // In the special case where gp_InitGraph() has not yet been called,
-    // we can simply set the higher arcCapacity since normal initialization
-    // will then allocate the correct number of edge records.
-    if (theGraph->N == 0)
-    {
-        theGraph->arcCapacity = requiredArcCapacity;
-        return OK;
-    }
-
-    // Try to expand the arc capacity
-    return theGraph->functions.fpEnsureArcCapacity(theGraph, requiredArcCapacity);
-}
-
-int _EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
-{
-    stackP newStack;
-    edgeRecP newE;
-    int e, Esize = gp_EdgeIndexBound(theGraph),
-           newEsize = gp_GetFirstEdge(theGraph) + requiredArcCapacity;
-
-    // If the new size is less than or equal to the old size, then
-    // the graph already has the required arc capacity
-    if (newEsize <= Esize)
-        return OK;
-
-    // Expand theStack
-    if (sp_GetCapacity(theGraph->theStack) < 2 * requiredArcCapacity)
-    {
-        int stackSize = 2 * requiredArcCapacity;
-
-        if (stackSize < 6 * theGraph->N)
-        {
-            // NOTE: Since this routine only makes the stack bigger, this
-            //       calculation is not needed here because we already ensured
-            //       we had stack capacity of the greater of 2*arcs and 6*N
-            //       But we do it for clarity and consistency (e.g. so this rule
-            //       is not forgotten whenever a "SetArcCapacity" method or a
-            //       "reduceArcCapacity" method is added)
-            stackSize = 6 * theGraph->N;
-        }
-
-        if ((newStack = sp_New(stackSize)) == NULL)
-            return NOTOK;
-
-        sp_CopyContent(newStack, theGraph->theStack);
-        sp_Free(&theGraph->theStack);
-        theGraph->theStack = newStack;
-    }
-
-    // Expand edgeHoles
-    if ((newStack = sp_New(requiredArcCapacity / 2)) == NULL)
-    {
-        return NOTOK;
-    }
-
-    sp_CopyContent(newStack, theGraph->edgeHoles);
-    sp_Free(&theGraph->edgeHoles);
-    theGraph->edgeHoles = newStack;
-
-    // Reallocate the edgeRec array to the new size,
-    newE = (edgeRecP)realloc(theGraph->E, newEsize * sizeof(edgeRec));
-    if (newE == NULL)
-        return NOTOK;
-    theGraph->E = newE;
-
-    // Initialize the new edge records
-    for (e = Esize; e < newEsize; e++)
-        _InitEdgeRec(theGraph, e);
-
-    // The new arcCapacity has been successfully achieved
-    theGraph->arcCapacity = requiredArcCapacity;
-    return OK;
-}
-
-/********************************************************************
- _InitVertexRec()
- Sets the fields in a single vertex record to initial values
- ********************************************************************/
-
-void _InitVertexRec(graphP theGraph, int v)
-{
-    gp_SetFirstArc(theGraph, v, NIL);
-    gp_SetLastArc(theGraph, v, NIL);
-    gp_SetVertexIndex(theGraph, v, NIL);
-    gp_InitVertexFlags(theGraph, v);
-}
-
-/********************************************************************
- _InitVertexInfo()
- Sets the fields in a single vertex record to initial values
- ********************************************************************/
-
-void _InitVertexInfo(graphP theGraph, int v)
-{
-    gp_SetVertexParent(theGraph, v, NIL);
-    gp_SetVertexLeastAncestor(theGraph, v, NIL);
-    gp_SetVertexLowpoint(theGraph, v, NIL);
-
-    gp_SetVertexVisitedInfo(theGraph, v, NIL);
-    gp_SetVertexPertinentEdge(theGraph, v, NIL);
-    gp_SetVertexPertinentRootsList(theGraph, v, NIL);
-    gp_SetVertexFuturePertinentChild(theGraph, v, NIL);
-    gp_SetVertexSortedDFSChildList(theGraph, v, NIL);
-    gp_SetVertexFwdArcList(theGraph, v, NIL);
-}
-
-/********************************************************************
- _InitEdgeRec()
- Sets the fields in a single edge record structure to initial values
- ********************************************************************/
-
-void _InitEdgeRec(graphP theGraph, int e)
-{
-    gp_SetNeighbor(theGraph, e, NIL);
-    gp_SetPrevArc(theGraph, e, NIL);
-    gp_SetNextArc(theGraph, e, NIL);
-    gp_InitEdgeFlags(theGraph, e);
-}
-
-/********************************************************************
- _InitIsolatorContext()
- ********************************************************************/
-
-void _InitIsolatorContext(graphP theGraph)
-{
-    isolatorContextP IC = &theGraph->IC;
-
-    IC->minorType = 0;
-    IC->v = IC->r = IC->x = IC->y = IC->w = IC->px = IC->py = IC->z =
-        IC->ux = IC->dx = IC->uy = IC->dy = IC->dw = IC->uz = IC->dz = NIL;
-}
-
-/********************************************************************
- _ClearVisitedFlags()
- ********************************************************************/
-
-void _ClearVisitedFlags(graphP theGraph)
-{
-    _ClearVertexVisitedFlags(theGraph, TRUE);
-    _ClearEdgeVisitedFlags(theGraph);
-}
-
-/********************************************************************
- _ClearVertexVisitedFlags()
- ********************************************************************/
-
-void _ClearVertexVisitedFlags(graphP theGraph, int includeVirtualVertices)
-{
-    int v;
-
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-        gp_ClearVertexVisited(theGraph, v);
-
-    if (includeVirtualVertices)
-        for (v = gp_GetFirstVirtualVertex(theGraph); gp_VirtualVertexInRange(theGraph, v); v++)
-            gp_ClearVertexVisited(theGraph, v);
-}
-
-/********************************************************************
- _ClearEdgeVisitedFlags()
- ********************************************************************/
-
-void _ClearEdgeVisitedFlags(graphP theGraph)
-{
-    int e, EsizeOccupied;
-
-    EsizeOccupied = gp_EdgeInUseIndexBound(theGraph);
-    for (e = gp_GetFirstEdge(theGraph); e < EsizeOccupied; e++)
-        gp_ClearEdgeVisited(theGraph, e);
-}
-
-/********************************************************************
- _ClearVisitedFlagsInBicomp()
-
- Clears the visited flag of the vertices and arcs in the bicomp rooted
- by BicompRoot.
-
- This method uses the stack but preserves whatever may have been
- on it.  In debug mode, it will return NOTOK if the stack overflows.
- This method pushes at most one integer per vertex in the bicomp.
-
- Returns OK on success, NOTOK on implementation failure.
- ********************************************************************/
-
-int _ClearVisitedFlagsInBicomp(graphP theGraph, int BicompRoot)
-{
-    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
-    int v, e;
-
-    sp_Push(theGraph->theStack, BicompRoot);
-    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
-    {
-        sp_Pop(theGraph->theStack, v);
-        gp_ClearVertexVisited(theGraph, v);
-
-        e = gp_GetFirstArc(theGraph, v);
-        while (gp_IsArc(e))
-        {
-            gp_ClearEdgeVisited(theGraph, e);
-
-            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
-                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
-
-            e = gp_GetNextArc(theGraph, e);
-        }
-    }
-    return OK;
-}
-
-/********************************************************************
- _ClearVisitedFlagsInOtherBicomps()
- Typically, we want to clear all visited flags in the graph
- (see _ClearVisitedFlags).  However, in some algorithms this would be
- too costly, so it is necessary to clear the visited flags only
- in one bicomp (see _ClearVisitedFlagsInBicomp), then do some processing
- that sets some of the flags then performs some tests.  If the tests
- are positive, then we can clear all the visited flags in the
- other bicomps (the processing may have set the visited flags in the
- one bicomp in a particular way that we want to retain, so we skip
- the given bicomp).
- ********************************************************************/
-
-int _ClearVisitedFlagsInOtherBicomps(graphP theGraph, int BicompRoot)
-{
-    int R;
-
-    for (R = gp_GetFirstVirtualVertex(theGraph); gp_VirtualVertexInRange(theGraph, R); R++)
-    {
-        if (R != BicompRoot && gp_VirtualVertexInUse(theGraph, R))
-        {
-            if (_ClearVisitedFlagsInBicomp(theGraph, R) != OK)
-                return NOTOK;
-        }
-    }
-    return OK;
-}
-
-/********************************************************************
- _ClearVisitedFlagsInUnembeddedEdges()
- Unembedded edges aren't part of any bicomp yet, but it may be
- necessary to clear their visited flags.
- ********************************************************************/
-
-void _ClearVisitedFlagsInUnembeddedEdges(graphP theGraph)
-{
-    int v, e;
-
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-    {
-        e = gp_GetVertexFwdArcList(theGraph, v);
-        while (gp_IsArc(e))
-        {
-            gp_ClearEdgeVisited(theGraph, e);
-            gp_ClearEdgeVisited(theGraph, gp_GetTwinArc(theGraph, e));
-
-            e = gp_GetNextArc(theGraph, e);
-            if (e == gp_GetVertexFwdArcList(theGraph, v))
-                e = NIL;
-        }
-    }
-}
-
-/****************************************************************************
- _ClearVisitedFlagsOnPath()
- This method clears the visited flags on the vertices and edges on the path
- (u, v, ..., w, x) in which all vertices except the endpoints u and x
- are degree 2.  This method avoids performing more than constant work at the
- path endpoints u and x, so the total work is on the order of the path length.
-
- Returns OK on success, NOTOK on internal failure
- ****************************************************************************/
-
-int _ClearVisitedFlagsOnPath(graphP theGraph, int u, int v, int w, int x)
-{
-    int e, eTwin;
-
-    // We want to exit u from e, but we get eTwin first here in order to avoid
-    // work, in case the degree of u is greater than 2.
-    eTwin = gp_GetNeighborEdgeRecord(theGraph, v, u);
-    if (gp_IsNotArc(eTwin))
-        return NOTOK;
-    e = gp_GetTwinArc(theGraph, eTwin);
-
-    v = u;
-
-    do
-    {
-        // Mark the vertex and the exiting edge
-        gp_ClearVertexVisited(theGraph, v);
-        gp_ClearEdgeVisited(theGraph, e);
-        gp_ClearEdgeVisited(theGraph, eTwin);
-
-        // Get the next vertex
-        v = gp_GetNeighbor(theGraph, e);
-        e = gp_GetNextArcCircular(theGraph, eTwin);
-        eTwin = gp_GetTwinArc(theGraph, e);
-    } while (v != x);
-
-    // Mark the last vertex with 'visited'
-    gp_ClearVertexVisited(theGraph, x);
-
-    return OK;
-}
-
-/****************************************************************************
- _SetVisitedFlagsOnPath()
- This method sets the visited flags on the vertices and edges on the path
- (u, v, ..., w, x) in which all vertices except the endpoints u and x
- are degree 2.  This method avoids performing more than constant work at the
- path endpoints u and x, so the total work is on the order of the path length.
-
- Returns OK on success, NOTOK on internal failure
- ****************************************************************************/
-
-int _SetVisitedFlagsOnPath(graphP theGraph, int u, int v, int w, int x)
-{
-    int e, eTwin;
-
-    // We want to exit u from e, but we get eTwin first here in order to avoid
-    // work, in case the degree of u is greater than 2.
-    eTwin = gp_GetNeighborEdgeRecord(theGraph, v, u);
-    if (gp_IsNotArc(eTwin))
-        return NOTOK;
-    e = gp_GetTwinArc(theGraph, eTwin);
-
-    v = u;
-
-    do
-    {
-        // Mark the vertex and the exiting edge
-        gp_SetVertexVisited(theGraph, v);
-        gp_SetEdgeVisited(theGraph, e);
-        gp_SetEdgeVisited(theGraph, eTwin);
-
-        // Get the next vertex
-        v = gp_GetNeighbor(theGraph, e);
-        e = gp_GetNextArcCircular(theGraph, eTwin);
-        eTwin = gp_GetTwinArc(theGraph, e);
-    } while (v != x);
-
-    // Mark the last vertex with 'visited'
-    gp_SetVertexVisited(theGraph, x);
-
-    return OK;
-}
-
-/********************************************************************
- _FillVertexVisitedInfoInBicomp()
-
- Places the FillValue into the visitedInfo of the non-virtual vertices
- in the bicomp rooted by BicompRoot.
-
- This method uses the stack but preserves whatever may have been
- on it.  In debug mode, it will return NOTOK if the stack overflows.
- This method pushes at most one integer per vertex in the bicomp.
-
- Returns OK on success, NOTOK on implementation failure.
- ********************************************************************/
-
-int _FillVertexVisitedInfoInBicomp(graphP theGraph, int BicompRoot, int FillValue)
-{
-    int v, e;
-    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
-
-    sp_Push(theGraph->theStack, BicompRoot);
-    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
-    {
-        sp_Pop(theGraph->theStack, v);
-
-        if (gp_IsNotVirtualVertex(theGraph, v))
-            gp_SetVertexVisitedInfo(theGraph, v, FillValue);
-
-        e = gp_GetFirstArc(theGraph, v);
-        while (gp_IsArc(e))
-        {
-            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
-                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
-
-            e = gp_GetNextArc(theGraph, e);
-        }
-    }
-    return OK;
-}
-
-/********************************************************************
- _ClearVertexTypeInBicomp()
-
- Clears the 'obstruction type' bits for each vertex in the bicomp
- rooted by BicompRoot.
-
- This method uses the stack but preserves whatever may have been
- on it.  In debug mode, it will return NOTOK if the stack overflows.
- This method pushes at most one integer per vertex in the bicomp.
-
- Returns OK on success, NOTOK on implementation failure.
- ********************************************************************/
-
-int _ClearVertexTypeInBicomp(graphP theGraph, int BicompRoot)
-{
-    int V, e;
-    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
-
-    sp_Push(theGraph->theStack, BicompRoot);
-    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
-    {
-        sp_Pop(theGraph->theStack, V);
-        gp_ClearVertexObstructionType(theGraph, V);
-
-        e = gp_GetFirstArc(theGraph, V);
-        while (gp_IsArc(e))
-        {
-            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
-                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
-
-            e = gp_GetNextArc(theGraph, e);
-        }
-    }
-    return OK;
-}
-
-/********************************************************************
- _ClearGraph()
- Clears all memory used by the graph, restoring it to the state it
- was in immediately after gp_New() created it.
- ********************************************************************/
-
-void _ClearGraph(graphP theGraph)
-{
-    if (theGraph->V != NULL)
-    {
-        free(theGraph->V);
-        theGraph->V = NULL;
-    }
-    if (theGraph->VI != NULL)
-    {
-        free(theGraph->VI);
-        theGraph->VI = NULL;
-    }
-    if (theGraph->E != NULL)
-    {
-        free(theGraph->E);
-        theGraph->E = NULL;
-    }
-
-    theGraph->N = 0;
-    theGraph->NV = 0;
-    theGraph->M = 0;
-    theGraph->arcCapacity = 0;
-    theGraph->internalFlags = 0;
-    theGraph->embedFlags = 0;
-
-    _InitIsolatorContext(theGraph);
-
-    LCFree(&theGraph->BicompRootLists);
-    LCFree(&theGraph->sortedDFSChildLists);
-
-    sp_Free(&theGraph->theStack);
-
-    if (theGraph->extFace != NULL)
-    {
-        free(theGraph->extFace);
-        theGraph->extFace = NULL;
-    }
-
-    sp_Free(&theGraph->edgeHoles);
-
-    gp_FreeExtensions(theGraph);
-}
-
-/********************************************************************
- gp_Free()
- Frees G and V, then the graph record.  Then sets your pointer to NULL
- (so you must pass the address of your pointer).
- ********************************************************************/
-
-void gp_Free(graphP *pGraph)
-{
-    if (pGraph == NULL)
-        return;
-    if (*pGraph == NULL)
-        return;
-
-    _ClearGraph(*pGraph);
-
-    free(*pGraph);
-    *pGraph = NULL;
-}
-
-/********************************************************************
- gp_CopyAdjacencyLists()
- Copies the adjacency lists from the srcGraph to the dstGraph.
- This method intentionally copies only the adjacency lists of the
- first N vertices, so the adjacency lists of virtual vertices are
- excluded (unless the caller temporarily resets the value of N to
- include NV).
-
- Returns OK on success, NOTOK on failures, e.g. if the two graphs
- have different orders N or if the arcCapacity of dstGraph cannot
- be increased to match that of srcGraph.
- ********************************************************************/
-int gp_CopyAdjacencyLists(graphP dstGraph, graphP srcGraph)
-{
-    int v, e, EsizeOccupied;
-
-    if (dstGraph == NULL || srcGraph == NULL)
-        return NOTOK;
-
-    if (dstGraph->N != srcGraph->N || dstGraph->N == 0)
-        return NOTOK;
-
-    if (gp_EnsureArcCapacity(dstGraph, srcGraph->arcCapacity) != OK)
-        return NOTOK;
-
-    // Copy the links that hook each owning vertex to its adjacency list
-    for (v = gp_GetFirstVertex(srcGraph); gp_VertexInRange(srcGraph, v); v++)
-    {
-        gp_SetFirstArc(dstGraph, v, gp_GetFirstArc(srcGraph, v));
-        gp_SetLastArc(dstGraph, v, gp_GetLastArc(srcGraph, v));
-    }
-
-    // Copy the adjacency links and neighbor pointers for each arc
-    EsizeOccupied = gp_EdgeInUseIndexBound(srcGraph);
-    for (e = gp_GetFirstEdge(theGraph); e < EsizeOccupied; e++)
-    {
-        gp_SetNeighbor(dstGraph, e, gp_GetNeighbor(srcGraph, e));
-        gp_SetNextArc(dstGraph, e, gp_GetNextArc(srcGraph, e));
-        gp_SetPrevArc(dstGraph, e, gp_GetPrevArc(srcGraph, e));
-    }
-
-    // Tell the dstGraph how many edges it now has and where the edge holes are
-    dstGraph->M = srcGraph->M;
-    sp_Copy(dstGraph->edgeHoles, srcGraph->edgeHoles);
-
-    return OK;
-}
-
-/********************************************************************
- gp_CopyGraph()
- Copies the content of the srcGraph into the dstGraph.  The dstGraph
- must have been previously initialized with the same number of
- vertices as the srcGraph (e.g. gp_InitGraph(dstGraph, srcGraph->N).
-
- Returns OK for success, NOTOK for failure.
- ********************************************************************/
-
-int gp_CopyGraph(graphP dstGraph, graphP srcGraph)
-{
-    int v, e, Esize;
-
-    // Parameter checks
-    if (dstGraph == NULL || srcGraph == NULL)
-    {
-        return NOTOK;
-    }
-
-    // The graphs need to be the same order and initialized
-    if (dstGraph->N != srcGraph->N || dstGraph->N == 0)
-    {
-        return NOTOK;
-    }
-
-    // Ensure dstGraph has the required arc capacity; this expands
-    // dstGraph if needed, but does not contract.  An error is only
-    // returned if the expansion fails.
-    if (gp_EnsureArcCapacity(dstGraph, srcGraph->arcCapacity) != OK)
-    {
-        return NOTOK;
-    }
-
-    // Copy the primary vertices.  Augmentations to vertices created
-    // by extensions are copied below by gp_CopyExtensions()
-    for (v = gp_GetFirstVertex(srcGraph); gp_VertexInRange(srcGraph, v); v++)
-    {
-        gp_CopyVertexRec(dstGraph, v, srcGraph, v);
-        gp_CopyVertexInfo(dstGraph, v, srcGraph, v);
-        gp_SetExtFaceVertex(dstGraph, v, 0, gp_GetExtFaceVertex(srcGraph, v, 0));
-        gp_SetExtFaceVertex(dstGraph, v, 1, gp_GetExtFaceVertex(srcGraph, v, 1));
-    }
-
-    // Copy the virtual vertices.  Augmentations to virtual vertices created
-    // by extensions are copied below by gp_CopyExtensions()
-    for (v = gp_GetFirstVirtualVertex(srcGraph); gp_VirtualVertexInRange(srcGraph, v); v++)
-    {
-        gp_CopyVertexRec(dstGraph, v, srcGraph, v);
-        gp_SetExtFaceVertex(dstGraph, v, 0, gp_GetExtFaceVertex(srcGraph, v, 0));
-        gp_SetExtFaceVertex(dstGraph, v, 1, gp_GetExtFaceVertex(srcGraph, v, 1));
-    }
-
-    // Copy the basic EdgeRec structures.  Augmentations to the edgeRec structure
-    // created by extensions are copied below by gp_CopyExtensions()
-    Esize = gp_EdgeIndexBound(srcGraph);
-    for (e = gp_GetFirstEdge(theGraph); e < Esize; e++)
-        gp_CopyEdgeRec(dstGraph, e, srcGraph, e);
-
-    // Clear the edge records of dstGraph that srcGraph does not have
-    for (; e < gp_EdgeIndexBound(dstGraph); e++)
-        _InitEdgeRec(dstGraph, e);
-
-    // Give the dstGraph the same size and intrinsic properties
-    dstGraph->N = srcGraph->N;
-    dstGraph->NV = srcGraph->NV;
-    dstGraph->M = srcGraph->M;
-    dstGraph->internalFlags = srcGraph->internalFlags;
-    dstGraph->embedFlags = srcGraph->embedFlags;
-
-    dstGraph->IC = srcGraph->IC;
-
-    LCCopy(dstGraph->BicompRootLists, srcGraph->BicompRootLists);
-    LCCopy(dstGraph->sortedDFSChildLists, srcGraph->sortedDFSChildLists);
-    if (sp_Copy(dstGraph->theStack, srcGraph->theStack) != OK ||
-        sp_Copy(dstGraph->edgeHoles, srcGraph->edgeHoles) != OK)
-    {
-        return NOTOK;
-    }
-
-    // Copy the set of extensions, which includes copying the
-    // extension data as well as the function overload tables
-    if (gp_CopyExtensions(dstGraph, srcGraph) != OK)
-        return NOTOK;
-
-    // Copy the graph's function table, which has the pointers to
-    // the most recent extension overloads of each function (or
-    // the original function pointer if a particular function has
-    // not been overloaded).
-    // This must be done after copying the extension because the
-    // first step of copying the extensions is to delete the
-    // dstGraph extensions, which clears its function table.
-    // Therefore, no good to assign the srcGraph functions *before*
-    // copying the extensions because the assignment would be wiped out
-    // This, in turn, means that the DupContext function of an extension
-    // *cannot* depend on any extension function overloads; the extension
-    // must directly invoke extension functions only.
-    dstGraph->functions = srcGraph->functions;
-
-    return OK;
-}
-
-/********************************************************************
- gp_DupGraph()
- ********************************************************************/
-
-graphP gp_DupGraph(graphP theGraph)
-{
-    graphP result;
-
-    if ((result = gp_New()) == NULL)
-        return NULL;
-
-    if (gp_InitGraph(result, theGraph->N) != OK ||
-        gp_CopyGraph(result, theGraph) != OK)
-    {
-        gp_Free(&result);
-        return NULL;
-    }
-
-    return result;
-}
-
-/********************************************************************
- gp_CreateRandomGraph()
-
- Creates a randomly generated graph.  First a tree is created by
- connecting each vertex to some successor.  Then a random number of
- additional random edges are added.  If an edge already exists, then
- we retry until a non-existent edge is picked.
-
- This function assumes the caller has already called srand().
-
- Returns OK on success, NOTOK on failure
- ********************************************************************/
-
-int gp_CreateRandomGraph(graphP theGraph)
-{
-    int N, M, u, v, m;
-
-    N = theGraph->N;
-
-    /* Generate a random tree; note that this method virtually guarantees
-            that the graph will be renumbered, but it is linear time.
-            Also, we are not generating the DFS tree but rather a tree
-            that simply ensures the resulting random graph is connected. */
-
-    for (v = gp_GetFirstVertex(theGraph) + 1; gp_VertexInRange(theGraph, v); v++)
-    {
-        u = _GetRandomNumber(gp_GetFirstVertex(theGraph), v - 1);
-        if (gp_AddEdge(theGraph, u, 0, v, 0) != OK)
-            return NOTOK;
-    }
-
-    /* Generate a random number of additional edges
-            (actually, leave open a small chance that no
-            additional edges will be added). */
-
-    M = _GetRandomNumber(7 * N / 8, theGraph->arcCapacity / 2);
-
-    if (M > N * (N - 1) / 2)
-        M = N * (N - 1) / 2;
-
-    for (m = N - 1; m < M; m++)
-    {
-        u = _GetRandomNumber(gp_GetFirstVertex(theGraph), gp_GetLastVertex(theGraph) - 1);
-        v = _GetRandomNumber(u + 1, gp_GetLastVertex(theGraph));
-
-        // If the edge (u,v) exists, decrement eIndex to try again
-        if (gp_IsNeighbor(theGraph, u, v))
-            m--;
-
-        // If the edge (u,v) doesn't exist, add it
-        else
-        {
-            if (gp_AddEdge(theGraph, u, 0, v, 0) != OK)
-                return NOTOK;
-        }
-    }
-
-    return OK;
-}
-
-/********************************************************************
- _GetRandomNumber()
- This function generates a random number between NMin and NMax
- inclusive.  It assumes that the caller has called srand().
- It calls rand(), but before truncating to the proper range,
- it adds the high bits of the rand() result into the low bits.
- The result of this is that the randomness appearing in the
- truncated bits also has an affect on the non-truncated bits.
- ********************************************************************/
-
-int _GetRandomNumber(int NMin, int NMax)
-{
-    int N = rand();
-
-    if (NMax < NMin)
-        return NMin;
-
-    N += ((N & 0xFFFF0000) >> 16);
-    N += ((N & 0x0000FF00) >> 8);
-    N &= 0x7FFFFFF;
-    N %= (NMax - NMin + 1);
-    return N + NMin;
-}
-
-/********************************************************************
- _getUnprocessedChild()
- Support routine for gp_Create RandomGraphEx(), this function
- obtains a child of the given vertex in the randomly generated
- tree that has not yet been processed.  NIL is returned if the
- given vertex has no unprocessed children
-
- ********************************************************************/
-
-int _getUnprocessedChild(graphP theGraph, int parent)
-{
-    int e = gp_GetFirstArc(theGraph, parent);
-    int eTwin = gp_GetTwinArc(theGraph, e);
-    int child = gp_GetNeighbor(theGraph, e);
-
-    // The tree edges were added to the beginning of the adjacency list,
-    // and we move processed tree edge records to the end of the list,
-    // so if the immediate next arc (edge record) is not a tree edge
-    // then we return NIL because the vertex has no remaining
-    // unprocessed children
-    if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_NOTDEFINED)
-        return NIL;
-
-    // If the child has already been processed, then all children
-    // have been pushed to the end of the list, and we have just
-    // encountered the first child we processed, so there are no
-    // remaining unprocessed children */
-    if (gp_GetEdgeVisited(theGraph, e))
-        return NIL;
-
-    // We have found an edge leading to an unprocessed child, so
-    // we mark it as processed so that it doesn't get returned
-    // again in future iterations.
-    gp_SetEdgeVisited(theGraph, e);
-    gp_SetEdgeVisited(theGraph, eTwin);
-
-    // Now we move the edge record in the parent vertex to the end
-    // of the adjacency list of that vertex.
-    gp_MoveArcToLast(theGraph, parent, e);
-
-    // Now we move the edge record in the child vertex to the
-    // end of the adjacency list of the child.
-    gp_MoveArcToLast(theGraph, child, eTwin);
-
-    // Now we set the child's parent and return the child.
-    gp_SetVertexParent(theGraph, child, parent);
-
-    return child;
-}
-
-/********************************************************************
- _hasUnprocessedChild()
- Support routine for gp_Create RandomGraphEx(), this function
- obtains a child of the given vertex in the randomly generated
- tree that has not yet been processed.  False (0) is returned
- unless the given vertex has an unprocessed child.
- ********************************************************************/
-
-int _hasUnprocessedChild(graphP theGraph, int parent)
-{
-    int e = gp_GetFirstArc(theGraph, parent);
-
-    if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_NOTDEFINED)
-        return 0;
-
-    if (gp_GetEdgeVisited(theGraph, e))
-        return 0;
-
-    return 1;
-}
-
-/********************************************************************
- gp_CreateRandomGraphEx()
- Given a graph structure with a pre-specified number of vertices N,
- this function creates a graph with the specified number of edges.
-
- If numEdges <= 3N-6, then the graph generated is planar.  If
- numEdges is larger, then a maximal planar graph is generated, then
- (numEdges - 3N + 6) additional random edges are added.
-
- This function assumes the caller has already called srand().
- ********************************************************************/
-
-int gp_CreateRandomGraphEx(graphP theGraph, int numEdges)
-{
-    int N, arc, M, root, v, c, p, last, u, e, EsizeOccupied;
-
-    N = theGraph->N;
-
-    if (numEdges > theGraph->arcCapacity / 2)
-        numEdges = theGraph->arcCapacity / 2;
-
-    if (numEdges > (long long)N * (N - 1) / 2)
-        numEdges = (int)((long long)N * (N - 1) / 2);
-
-    /* Generate a random tree. */
-
-    for (v = gp_GetFirstVertex(theGraph) + 1; gp_VertexInRange(theGraph, v); v++)
-    {
-        u = _GetRandomNumber(gp_GetFirstVertex(theGraph), v - 1);
-        if (gp_AddEdge(theGraph, u, 0, v, 0) != OK)
-            return NOTOK;
-
-        else
-        {
-            arc = gp_GetNeighborEdgeRecord(theGraph, u, v);
-            gp_SetEdgeType(theGraph, arc, EDGE_TYPE_RANDOMTREE);
-            gp_SetEdgeType(theGraph, gp_GetTwinArc(theGraph, arc), EDGE_TYPE_RANDOMTREE);
-            gp_ClearEdgeVisited(theGraph, arc);
-            gp_ClearEdgeVisited(theGraph, gp_GetTwinArc(theGraph, arc));
-        }
-    }
-
-    /* Add edges up to the limit or until the graph is maximal planar. */
-
-    M = numEdges <= 3 * N - 6 ? numEdges : 3 * N - 6;
-
-    root = gp_GetFirstVertex(theGraph);
-    v = last = _getUnprocessedChild(theGraph, root);
-
-    while (v != root && theGraph->M < M)
-    {
-        c = _getUnprocessedChild(theGraph, v);
-
-        if (gp_IsVertex(c))
-        {
-            if (last != v)
-            {
-                if (gp_AddEdge(theGraph, last, 1, c, 1) != OK)
-                    return NOTOK;
-            }
-
-            if (gp_AddEdge(theGraph, root, 1, c, 1) != OK)
-                return NOTOK;
-
-            v = last = c;
-        }
-
-        else
-        {
-            p = gp_GetVertexParent(theGraph, v);
-            while (gp_IsVertex(p) && gp_IsNotVertex(c = _getUnprocessedChild(theGraph, p)))
-            {
-                v = p;
-                p = gp_GetVertexParent(theGraph, v);
-                if (gp_IsVertex(p) && p != root)
-                {
-                    if (gp_AddEdge(theGraph, last, 1, p, 1) != OK)
-                        return NOTOK;
-                }
-            }
-
-            if (gp_IsVertex(p))
-            {
-                if (p == root)
-                {
-                    if (gp_AddEdge(theGraph, v, 1, c, 1) != OK)
-                        return NOTOK;
-
-                    if (v != last)
-                    {
-                        if (gp_AddEdge(theGraph, last, 1, c, 1) != OK)
-                            return NOTOK;
-                    }
-                }
-                else
-                {
-                    if (gp_AddEdge(theGraph, last, 1, c, 1) != OK)
-                        return NOTOK;
-                }
-
-                if (p != root)
-                {
-                    if (gp_AddEdge(theGraph, root, 1, c, 1) != OK)
-                        return NOTOK;
-                    last = c;
-                }
-
-                v = c;
-            }
-        }
-    }
-
-    /* Add additional edges if the limit has not yet been reached. */
-
-    while (theGraph->M < numEdges)
-    {
-        u = _GetRandomNumber(gp_GetFirstVertex(theGraph), gp_GetLastVertex(theGraph));
-        v = _GetRandomNumber(gp_GetFirstVertex(theGraph), gp_GetLastVertex(theGraph));
-
-        if (u != v && !gp_IsNeighbor(theGraph, u, v))
-            if (gp_AddEdge(theGraph, u, 0, v, 0) != OK)
-                return NOTOK;
-    }
-
-    /* Clear the edge types back to 'unknown' */
-
-    EsizeOccupied = gp_EdgeInUseIndexBound(theGraph);
-    for (e = 0; e < EsizeOccupied; e++)
-    {
-        gp_ClearEdgeType(theGraph, e);
-        gp_ClearEdgeVisited(theGraph, e);
-    }
-
-    /* Put all DFSParent indicators back to NIL */
-
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-        gp_SetVertexParent(theGraph, v, NIL);
-
-    return OK;
-}
-
-/********************************************************************
- gp_IsNeighbor()
-
- Checks whether v is already in u's adjacency list, i.e. does the arc
- u -> v exist.
- If there is an edge record for v in u's list, but it is marked INONLY,
- then it represents the arc v->u but not u->v, so it is ignored.
-
- Returns TRUE or FALSE.
- ********************************************************************/
-
-int gp_IsNeighbor(graphP theGraph, int u, int v)
-{
-    int e = gp_GetFirstArc(theGraph, u);
-
-    while (gp_IsArc(e))
-    {
-        if (gp_GetNeighbor(theGraph, e) == v)
-        {
-            if (gp_GetDirection(theGraph, e) != EDGEFLAG_DIRECTION_INONLY)
-                return TRUE;
-        }
-        e = gp_GetNextArc(theGraph, e);
-    }
-    return FALSE;
-}
-
-/********************************************************************
- gp_GetNeighborEdgeRecord()
- Searches the adjacency list of u to obtains the edge record for v.
-
- NOTE: The caller should check whether the edge record is INONLY;
-       This method returns any edge record representing a connection
-       between vertices u and v, so this method can return an
-       edge record even if gp_IsNeighbor(theGraph, u, v) is false (0).
-       To filter out INONLY edge records, use gp_GetDirection() on
-       the edge record returned by this method.
-
- Returns NIL if there is no edge record indicating v in u's adjacency
-         list, or the edge record location otherwise.
- ********************************************************************/
-
-int gp_GetNeighborEdgeRecord(graphP theGraph, int u, int v)
-{
-    int e;
-
-    if (gp_IsNotVertex(u) || gp_IsNotVertex(v))
-        return NIL + NOTOK - NOTOK;
-
-    e = gp_GetFirstArc(theGraph, u);
-    while (gp_IsArc(e))
-    {
-        if (gp_GetNeighbor(theGraph, e) == v)
-            return e;
-
-        e = gp_GetNextArc(theGraph, e);
-    }
-    return NIL;
-}
-
-/********************************************************************
- gp_GetVertexDegree()
-
- Counts the number of edge records in the adjacency list of a given
- vertex V.
-
- Note: For digraphs, this method returns the total degree of the
-       vertex, including outward arcs (undirected and OUTONLY)
-       as well as INONLY arcs.  Other functions are defined to get
-       the in-degree or out-degree of the vertex.
-
- Note: This function determines the degree by counting.  An extension
-       could cache the degree value of each vertex and update the
-       cached value as edges are added and deleted.
- ********************************************************************/
-
-int gp_GetVertexDegree(graphP theGraph, int v)
-{
-    int e, degree;
-
-    if (theGraph == NULL || gp_IsNotVertex(v))
-        return 0 + NOTOK - NOTOK;
-
-    degree = 0;
-
-    e = gp_GetFirstArc(theGraph, v);
-    while (gp_IsArc(e))
-    {
-        degree++;
-        e = gp_GetNextArc(theGraph, e);
-    }
-
-    return degree;
-}
-
-/********************************************************************
- gp_GetVertexInDegree()
-
- Counts the number of edge records in the adjacency list of a given
- vertex V that represent arcs from another vertex into V.
- This includes undirected edges and INONLY arcs, so it only excludes
- edges records that are marked as OUTONLY arcs.
-
- Note: This function determines the in-degree by counting.  An extension
-       could cache the in-degree value of each vertex and update the
-       cached value as edges are added and deleted.
- ********************************************************************/
-
-int gp_GetVertexInDegree(graphP theGraph, int v)
-{
-    int e, degree;
-
-    if (theGraph == NULL || gp_IsNotVertex(v))
-        return 0 + NOTOK - NOTOK;
-
-    degree = 0;
-
-    e = gp_GetFirstArc(theGraph, v);
-    while (gp_IsArc(e))
-    {
-        if (gp_GetDirection(theGraph, e) != EDGEFLAG_DIRECTION_OUTONLY)
-            degree++;
-        e = gp_GetNextArc(theGraph, e);
-    }
-
-    return degree;
-}
-
-/********************************************************************
- gp_GetVertexOutDegree()
-
- Counts the number of edge records in the adjacency list of a given
- vertex V that represent arcs from V to another vertex.
- This includes undirected edges and OUTONLY arcs, so it only excludes
- edges records that are marked as INONLY arcs.
-
- Note: This function determines the out-degree by counting.  An extension
-       could cache the out-degree value of each vertex and update the
-       cached value as edges are added and deleted.
- ********************************************************************/
-
-int gp_GetVertexOutDegree(graphP theGraph, int v)
-{
-    int e, degree;
-
-    if (theGraph == NULL || gp_IsNotVertex(v))
-        return 0 + NOTOK - NOTOK;
-
-    degree = 0;
-
-    e = gp_GetFirstArc(theGraph, v);
-    while (gp_IsArc(e))
-    {
-        if (gp_GetDirection(theGraph, e) != EDGEFLAG_DIRECTION_INONLY)
-            degree++;
-        e = gp_GetNextArc(theGraph, e);
-    }
-
-    return degree;
-}
-
-/********************************************************************
- gp_AttachArc()
-
- This routine adds newArc into v's adjacency list at a position
- adjacent to the edge record for e, either before or after e,
- depending on link.  If e is not an arc (e.g. if e is NIL),
- then link is assumed to indicate whether the new arc is to be
- placed at the beginning or end of v's adjacency list.
-
- NOTE: The caller can pass NIL for v if e is not NIL, since the
-       vertex is implied (gp_GetNeighbor(theGraph, eTwin))
-
- The arc is assumed to already exist in the data structure (i.e.
- the storage of edges), as only a whole edge (two arcs) can be
- inserted into or deleted from the data structure.  Hence there is
- no such thing as gp_InsertArc() or gp_DeleteArc().
-
- See also gp_DetachArc(), gp_InsertEdge() and gp_DeleteEdge()
- ********************************************************************/
-
-void gp_AttachArc(graphP theGraph, int v, int e, int link, int newArc)
-{
-    if (gp_IsArc(e))
-    {
-        int e2 = gp_GetAdjacentArc(theGraph, e, link);
-
-        // e's link is newArc, and newArc's 1^link is e
-        gp_SetAdjacentArc(theGraph, e, link, newArc);
-        gp_SetAdjacentArc(theGraph, newArc, 1 ^ link, e);
-
-        // newArcs's link is e2
-        gp_SetAdjacentArc(theGraph, newArc, link, e2);
-
-        // if e2 is an arc, then e2's 1^link is newArc, else v's 1^link is newArc
-        if (gp_IsArc(e2))
-            gp_SetAdjacentArc(theGraph, e2, 1 ^ link, newArc);
-        else
-            gp_SetArc(theGraph, v, 1 ^ link, newArc);
-    }
-    else
-    {
-        int e2 = gp_GetArc(theGraph, v, link);
-
-        // v's link is newArc, and newArc's 1^link is NIL
-        gp_SetArc(theGraph, v, link, newArc);
-        gp_SetAdjacentArc(theGraph, newArc, 1 ^ link, NIL);
-
-        // newArcs's elink is e2
-        gp_SetAdjacentArc(theGraph, newArc, link, e2);
-
-        // if e2 is an arc, then e2's 1^link is newArc, else v's 1^link is newArc
-        if (gp_IsArc(e2))
-            gp_SetAdjacentArc(theGraph, e2, 1 ^ link, newArc);
-        else
-            gp_SetArc(theGraph, v, 1 ^ link, newArc);
-    }
-}
-
-/****************************************************************************
- gp_DetachArc()
-
- This routine detaches arc from its adjacency list, but it does not delete
- it from the data structure (only a whole edge can be deleted).
-
- Some algorithms must temporarily detach an edge, perform some calculation,
- and eventually put the edge back. This routine supports that operation.
- The neighboring adjacency list nodes are cross-linked, but the two link
- members of the arc are retained, so the arc can be reattached later by
- invoking _RestoreArc().  A sequence of detached arcs can only be restored
- in the exact opposite order of their detachment.  Thus, algorithms do not
- directly use this method to implement the temporary detach/restore method.
- Instead, gp_HideEdge() and gp_RestoreEdge are used, and algorithms push
- edge hidden edge onto the stack.  One example of this stack usage is
- provided by detaching edges with gp_ContractEdge() or gp_IdentifyVertices(),
- and reattaching with gp_RestoreIdentifications(), which unwinds the stack
- by invoking gp_RestoreVertex().
- ****************************************************************************/
-
-void gp_DetachArc(graphP theGraph, int arc)
-{
-    int nextArc = gp_GetNextArc(theGraph, arc),
-        prevArc = gp_GetPrevArc(theGraph, arc);
-
-    if (gp_IsArc(nextArc))
-        gp_SetPrevArc(theGraph, nextArc, prevArc);
-    else
-        gp_SetLastArc(theGraph, gp_GetNeighbor(theGraph, gp_GetTwinArc(theGraph, arc)), prevArc);
-
-    if (gp_IsArc(prevArc))
-        gp_SetNextArc(theGraph, prevArc, nextArc);
-    else
-        gp_SetFirstArc(theGraph, gp_GetNeighbor(theGraph, gp_GetTwinArc(theGraph, arc)), nextArc);
-}
-
-/********************************************************************
- gp_AddEdge()
- Adds the undirected edge (u,v) to the graph by placing edge records
- representing u into v's circular edge record list and v into u's
- circular edge record list.
-
- upos receives the location in G where the u record in v's list will be
-        placed, and vpos is the location in G of the v record we placed in
- u's list.  These are used to initialize the short circuit links.
-
- ulink (0|1) indicates whether the edge record to v in u's list should
-        become adjacent to u by its 0 or 1 link, i.e. u[ulink] == vpos.
- vlink (0|1) indicates whether the edge record to u in v's list should
-        become adjacent to v by its 0 or 1 link, i.e. v[vlink] == upos.
-
- ********************************************************************/
-
-int gp_AddEdge(graphP theGraph, int u, int ulink, int v, int vlink)
-{
-    int upos, vpos;
-
-    if (theGraph == NULL || u < gp_GetFirstVertex(theGraph) || v < gp_GetFirstVertex(theGraph) ||
-        !gp_VirtualVertexInRange(theGraph, u) || !gp_VirtualVertexInRange(theGraph, v))
-        return NOTOK;
-
-    /* We enforce the edge limit */
-
-    if (theGraph->M >= theGraph->arcCapacity / 2)
-        return NONEMBEDDABLE;
-
-    if (sp_NonEmpty(theGraph->edgeHoles))
-    {
-        sp_Pop(theGraph->edgeHoles, vpos);
-    }
-    else
-        vpos = gp_EdgeInUseIndexBound(theGraph);
-
-    upos = gp_GetTwinArc(theGraph, vpos);
-
-    gp_SetNeighbor(theGraph, upos, v);
-    gp_AttachArc(theGraph, u, NIL, ulink, upos);
-    gp_SetNeighbor(theGraph, vpos, u);
-    gp_AttachArc(theGraph, v, NIL, vlink, vpos);
-
-    theGraph->M++;
-    return OK;
-}
-
-/********************************************************************
- gp_DynamicAddEdge()
- Refer to documentation for gp_AddEdge for parameter description.
-
- Tries to call gp_AddEdge; if NONEMBEDDABLE, doubles the arc
- capacity (up to a max of (N * (N-1))) using gp_EnsureArcCapacity,
- then retries gp_AddEdge.
- ********************************************************************/
-int gp_DynamicAddEdge(graphP theGraph, int u, int ulink, int v, int vlink)
-{
-    int Result = OK;
-
-    if (theGraph == NULL || u < gp_GetFirstVertex(theGraph) || v < gp_GetFirstVertex(theGraph) ||
-        !gp_VirtualVertexInRange(theGraph, u) || !gp_VirtualVertexInRange(theGraph, v))
-        return NOTOK;
-
-    Result = gp_AddEdge(theGraph, u, ulink, v, vlink);
-
-    if (Result == NONEMBEDDABLE)
-    {
-        int candidateArcCapacity = gp_GetArcCapacity(theGraph) * 2;
-        int N = theGraph->N;
-        int newArcCapacity = (candidateArcCapacity / N >= N - 1) ? (N * (N - 1)) : candidateArcCapacity;
-        Result = gp_EnsureArcCapacity(theGraph, newArcCapacity);
-
-        if (Result != OK)
-            return Result;
-
-        Result = gp_AddEdge(theGraph, u, ulink, v, vlink);
-    }
-
-    return Result;
-}
-
-/********************************************************************
- gp_InsertEdge()
-
- This function adds the edge (u, v) such that the edge record added
- to the adjacency list of u is adjacent to e_u and the edge record
- added to the adjacency list of v is adjacent to e_v.
- The direction of adjacency is given by e_ulink for e_u and e_vlink
- for e_v. Specifically, the new edge will be comprised of two arcs,
- n_u and n_v.  In u's (v's) adjacency list, n_u (n_v) will be added
- so that it is indicated by e_u's (e_v's) e_ulink (e_vlink).
- If e_u (or e_v) is not an arc, then e_ulink (e_vlink) indicates
- whether to prepend or append to the adjacency list for u (v).
- ********************************************************************/
-
-int gp_InsertEdge(graphP theGraph, int u, int e_u, int e_ulink,
-                  int v, int e_v, int e_vlink)
-{
-    int vertMax = gp_GetLastVirtualVertex(theGraph),
-        edgeMax = gp_EdgeInUseIndexBound(theGraph) - 1,
-        upos, vpos;
-
-    if (theGraph == NULL || u < gp_GetFirstVertex(theGraph) || v < gp_GetFirstVertex(theGraph) ||
-        u > vertMax || v > vertMax ||
-        e_u > edgeMax || (e_u < gp_GetFirstEdge(theGraph) && gp_IsArc(e_u)) ||
-        e_v > edgeMax || (e_v < gp_GetFirstEdge(theGraph) && gp_IsArc(e_v)) ||
-        e_ulink < 0 || e_ulink > 1 || e_vlink < 0 || e_vlink > 1)
-        return NOTOK;
-
-    if (theGraph->M >= theGraph->arcCapacity / 2)
-        return NONEMBEDDABLE;
-
-    if (sp_NonEmpty(theGraph->edgeHoles))
-    {
-        sp_Pop(theGraph->edgeHoles, vpos);
-    }
-    else
-        vpos = gp_EdgeInUseIndexBound(theGraph);
-
-    upos = gp_GetTwinArc(theGraph, vpos);
-
-    gp_SetNeighbor(theGraph, upos, v);
-    gp_AttachArc(theGraph, u, e_u, e_ulink, upos);
-
-    gp_SetNeighbor(theGraph, vpos, u);
-    gp_AttachArc(theGraph, v, e_v, e_vlink, vpos);
-
-    theGraph->M++;
-
-    return OK;
-}
-
-/****************************************************************************
- gp_DeleteEdge()
-
- This function deletes the given edge record e and its twin, reducing the
- number of edges M in the graph.
- Before the e^th record is deleted, its 'nextLink' adjacency list neighbor
- is collected as the return result.  This is useful when iterating through
- an edge list and making deletions because the nextLink arc is the 'next'
- arc in the iteration, but it is hard to obtain *after* deleting e.
- ****************************************************************************/
-
-int gp_DeleteEdge(graphP theGraph, int e, int nextLink)
-{
-    // Calculate the nextArc after e so that, when e is deleted, the return result
-    // informs a calling loop of the next edge to be processed.
-    int nextArc = gp_GetAdjacentArc(theGraph, e, nextLink);
-
-    // Delete the edge records e and eTwin from their adjacency lists.
-    gp_DetachArc(theGraph, e);
-    gp_DetachArc(theGraph, gp_GetTwinArc(theGraph, e));
-
-    // Clear the two edge records
-    // (the bit twiddle (e & ~1) chooses the lesser of e and its twin arc)
-#if NIL == 0
-    memset(theGraph->E + (e & ~1), NIL_CHAR, sizeof(edgeRec) << 1);
-#else
-    _InitEdgeRec(theGraph, e);
-    _InitEdgeRec(theGraph, gp_GetTwinArc(theGraph, e));
-#endif
-
-    // Now we reduce the number of edges in the data structure
-    theGraph->M--;
-
-    // If records e and eTwin were not the last in the edge record array,
-    // then record a new hole in the edge array. */
-    if (e < gp_EdgeInUseIndexBound(theGraph))
-    {
-        sp_Push(theGraph->edgeHoles, e);
-    }
-
-    // Return the previously calculated successor of e.
-    return nextArc;
-}
-
-/********************************************************************
- _RestoreArc()
- This routine reinserts an arc into the edge list from which it
- was previously removed by gp_DetachArc().
-
- The assumed processing model is that arcs will be restored in reverse
- of the order in which they were hidden, i.e. it is assumed that the
- hidden arcs will be pushed on a stack and the arcs will be popped
- from the stack for restoration.
- ********************************************************************/
-
-void _RestoreArc(graphP theGraph, int arc)
-{
-    int nextArc = gp_GetNextArc(theGraph, arc),
-        prevArc = gp_GetPrevArc(theGraph, arc);
-
-    if (gp_IsArc(nextArc))
-        gp_SetPrevArc(theGraph, nextArc, arc);
-    else
-        gp_SetLastArc(theGraph, gp_GetNeighbor(theGraph, gp_GetTwinArc(theGraph, arc)), arc);
-
-    if (gp_IsArc(prevArc))
-        gp_SetNextArc(theGraph, prevArc, arc);
-    else
-        gp_SetFirstArc(theGraph, gp_GetNeighbor(theGraph, gp_GetTwinArc(theGraph, arc)), arc);
-}
-
-/********************************************************************
- gp_HideEdge()
- This routine removes the two arcs of an edge from the adjacency lists
- of its endpoint vertices, but does not delete them from the storage
- data structure.
-
- Many algorithms must temporarily remove an edge, perform some
- calculation, and eventually put the edge back. This routine supports
- that operation.
-
- For each arc, the neighboring adjacency list nodes are cross-linked,
- but the links in the arc are retained because they indicate the
- neighbor arcs to which the arc can be reattached by gp_RestoreEdge().
- ********************************************************************/
-
-void gp_HideEdge(graphP theGraph, int e)
-{
-    theGraph->functions.fpHideEdge(theGraph, e);
-}
-
-void _HideEdge(graphP theGraph, int e)
-{
-    gp_DetachArc(theGraph, e);
-    gp_DetachArc(theGraph, gp_GetTwinArc(theGraph, e));
-}
-
-/********************************************************************
- gp_RestoreEdge()
- This routine reinserts two two arcs of an edge into the adjacency
- lists of the edge's endpoints, the arcs having been previously
- removed by gp_HideEdge().
-
- The assumed processing model is that edges will be restored in
- reverse of the order in which they were hidden, i.e. it is assumed
- that the hidden edges will be pushed on a stack and the edges will
- be popped from the stack for restoration.
-
- Note: Since both arcs of an edge are restored, only one arc need
-        be pushed on the stack for restoration.  This routine
-        restores the two arcs in the opposite order from the order
-        in which they are hidden by gp_HideEdge().
- ********************************************************************/
-
-void gp_RestoreEdge(graphP theGraph, int e)
-{
-    theGraph->functions.fpRestoreEdge(theGraph, e);
-}
-
-void _RestoreEdge(graphP theGraph, int e)
-{
-    _RestoreArc(theGraph, gp_GetTwinArc(theGraph, e));
-    _RestoreArc(theGraph, e);
-}
-
-/********************************************************************
- _HideInternalEdges()
- Pushes onto the graph's stack and hides all arc nodes of the vertex
- except the first and last arcs in the adjacency list of the vertex.
- This method is typically called on a vertex that is on the external
- face of a biconnected component, because the first and last arcs are
- the ones that attach the vertex to the external face cycle, and any
- other arcs in the adjacency list are inside that cycle.
-
- This method uses the stack. The caller is expected to clear the stack
- or save the stack size before invocation, since the stack size is
- needed to _RestoreInternalEdges().
- ********************************************************************/
-
-int _HideInternalEdges(graphP theGraph, int vertex)
-{
-    int e = gp_GetFirstArc(theGraph, vertex);
-
-    // If the vertex adjacency list is empty or if it contains
-    // only one edge, then there are no *internal* edges to hide
-    if (e == gp_GetLastArc(theGraph, vertex))
-        return OK;
-
-    // Start with the first internal edge
-    e = gp_GetNextArc(theGraph, e);
-
-    // Cycle through all the edges, pushing each except stop
-    // before pushing the last edge, which is not internal
-    while (e != gp_GetLastArc(theGraph, vertex))
-    {
-        sp_Push(theGraph->theStack, e);
-        gp_HideEdge(theGraph, e);
-        e = gp_GetNextArc(theGraph, e);
-    }
-
-    return OK;
-}
-
-/********************************************************************
- _RestoreInternalEdges()
- Reverses the effects of _HideInternalEdges()
- ********************************************************************/
-
-int _RestoreInternalEdges(graphP theGraph, int stackBottom)
-{
-    return _RestoreHiddenEdges(theGraph, stackBottom);
-}
-
-/********************************************************************
- _RestoreHiddenEdges()
-
- Each entry on the stack, down to stackBottom, is assumed to be an
- edge record (arc) pushed in concert with invoking gp_HideEdge().
- Each edge is restored using gp_RestoreEdge() in exact reverse of the
- hiding order.  The stack is reduced in size to stackBottom.
-
- Returns OK on success, NOTOK on internal failure.
- ********************************************************************/
-
-int _RestoreHiddenEdges(graphP theGraph, int stackBottom)
-{
-    int e;
-
-    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
-    {
-        sp_Pop(theGraph->theStack, e);
-        if (gp_IsNotArc(e))
-            return NOTOK;
-        gp_RestoreEdge(theGraph, e);
-    }
-
-    return OK;
-}
-
-/********************************************************************
- gp_HideVertex()
-
- Pushes onto the graph's stack and hides all arc nodes of the vertex.
- Additional integers are then pushed so that the result is reversible
- by gp_RestoreVertex().  See that method for details on the expected
- stack segment.
-
- Returns OK for success, NOTOK for internal failure.
- ********************************************************************/
-
-int gp_HideVertex(graphP theGraph, int vertex)
-{
-    if (gp_IsNotVertex(vertex))
-        return NOTOK;
-
-    return theGraph->functions.fpHideVertex(theGraph, vertex);
-}
-
-int _HideVertex(graphP theGraph, int vertex)
-{
-    int hiddenEdgeStackBottom = sp_GetCurrentSize(theGraph->theStack);
-    int e = gp_GetFirstArc(theGraph, vertex);
-
-    // Cycle through all the edges, pushing and hiding each
-    while (gp_IsArc(e))
-    {
-        sp_Push(theGraph->theStack, e);
-        gp_HideEdge(theGraph, e);
-        e = gp_GetNextArc(theGraph, e);
-    }
-
-    // Push the additional integers needed by gp_RestoreVertex()
-    sp_Push(theGraph->theStack, hiddenEdgeStackBottom);
-    sp_Push(theGraph->theStack, NIL);
-    sp_Push(theGraph->theStack, NIL);
-    sp_Push(theGraph->theStack, NIL);
-    sp_Push(theGraph->theStack, NIL);
-    sp_Push(theGraph->theStack, NIL);
-    sp_Push(theGraph->theStack, vertex);
-
-    return OK;
-}
-
-/********************************************************************
- gp_ContractEdge()
-
- Contracts the edge e=(u,v).  This hides the edge (both e and its
- twin arc), and it also identifies vertex v with u.
- See gp_IdentifyVertices() for further details.
-
- Returns OK for success, NOTOK for internal failure.
- ********************************************************************/
-
-int gp_ContractEdge(graphP theGraph, int e)
-{
-    if (gp_IsNotArc(e))
-        return NOTOK;
-
-    return theGraph->functions.fpContractEdge(theGraph, e);
-}
-
-int _ContractEdge(graphP theGraph, int e)
-{
-    int eBefore, u, v, hiddenEdgeStackBottom;
-
-    if (gp_IsNotArc(e))
-        return NOTOK;
-
-    u = gp_GetNeighbor(theGraph, gp_GetTwinArc(theGraph, e));
-    v = gp_GetNeighbor(theGraph, e);
-
-    hiddenEdgeStackBottom = sp_GetCurrentSize(theGraph->theStack);
-
-    eBefore = gp_GetNextArc(theGraph, e);
-    sp_Push(theGraph->theStack, e);
-    gp_HideEdge(theGraph, e);
-
-    if (gp_IdentifyVertices(theGraph, u, v, eBefore) != OK)
-        return NOTOK;
-
-    // The vertex identification pushes K hidden edges, then an integer
-    // indicating where the top of stack was before those edges were hidden,
-    // then six more integers to indicate edges that were moved from v to u.
-    // That "hidden edges stackBottom" integer must indicate where the top of
-    // stack was before e was pushed, so that gp_RestoreVertex() restores e too.
-    sp_Set(theGraph->theStack, sp_GetCurrentSize(theGraph->theStack) - 7, hiddenEdgeStackBottom);
-
-    return OK;
-}
-
-/********************************************************************
- gp_IdentifyVertices()
-
- Identifies vertex v with vertex u by transferring all adjacencies
- of v to u.  Any duplicate edges are removed as described below.
- The non-duplicate edges of v are added to the adjacency list of u
- without disturbing their relative order, and they are added before
- the edge record eBefore in u's list. If eBefore is NIL, then the
- edges are simply appended to u's list.
-
- If u and v are adjacent, then gp_HideEdge() is invoked to remove
- the edge e=(u,v). Then, the edges of v that indicate neighbors of
- u are also hidden.  This is done by setting the visited flags of
- u's neighbors, then traversing the adjacency list of v.  For each
- visited neighbor of v, the edge is hidden because it would duplicate
- an adjacency already expressed in u's list. Finally, the remaining
- edges of v are moved to u's list, and each twin arc is adjusted
- to indicate u as a neighbor rather than v.
-
- This routine assumes that the visited flags are clear beforehand,
- and visited flag settings made herein are cleared before returning.
-
- The following are pushed, in order, onto the graph's built-in stack:
- 1) an integer for each hidden edge
- 2) the stack size before any hidden edges were pushed
- 3) six integers that indicate u, v and the edges moved from v to u
-
- An algorithm that identifies a series of vertices, either through
- directly calling this method or via gp_ContractEdge(), can unwind
- the identifications using gp_RestoreIdentifications(), which
- invokes gp_RestoreVertex() repeatedly.
-
- Returns OK on success, NOTOK on internal failure
- ********************************************************************/
-
-int gp_IdentifyVertices(graphP theGraph, int u, int v, int eBefore)
-{
-    return theGraph->functions.fpIdentifyVertices(theGraph, u, v, eBefore);
-}
-
-int _IdentifyVertices(graphP theGraph, int u, int v, int eBefore)
-{
-    int e = gp_GetNeighborEdgeRecord(theGraph, u, v);
-    int hiddenEdgeStackBottom, eBeforePred;
-
-    // If the vertices are adjacent, then the identification is
-    // essentially an edge contraction.
-    if (gp_IsArc(e))
-    {
-        // The edge contraction operation pushes one hidden edge, then
-        // recursively calls this method, then makes the stack segment
-        // indicate the hidden edge, too.
-        return gp_ContractEdge(theGraph, e);
-    }
-
-    // Now, u and v are not adjacent. Before we do any edge hiding or
-    // moving, we record the current stack size, as this is the
-    // stackBottom for the edges that will be hidden next.
-    hiddenEdgeStackBottom = sp_GetCurrentSize(theGraph->theStack);
-
-    // Mark as visited all neighbors of u
-    e = gp_GetFirstArc(theGraph, u);
-    while (gp_IsArc(e))
-    {
-        if (gp_GetVertexVisited(theGraph, gp_GetNeighbor(theGraph, e)))
-            return NOTOK;
-
-        gp_SetVertexVisited(theGraph, gp_GetNeighbor(theGraph, e));
-        e = gp_GetNextArc(theGraph, e);
-    }
-
-    // For each edge record of v, if the neighbor is visited, then
-    // push and hide the edge.
-    e = gp_GetFirstArc(theGraph, v);
-    while (gp_IsArc(e))
-    {
-        if (gp_GetVertexVisited(theGraph, gp_GetNeighbor(theGraph, e)))
-        {
-            sp_Push(theGraph->theStack, e);
-            gp_HideEdge(theGraph, e);
-        }
-        e = gp_GetNextArc(theGraph, e);
-    }
-
-    // Mark as unvisited all neighbors of u
-    e = gp_GetFirstArc(theGraph, u);
-    while (gp_IsArc(e))
-    {
-        gp_ClearVertexVisited(theGraph, gp_GetNeighbor(theGraph, e));
-        e = gp_GetNextArc(theGraph, e);
-    }
-
-    // Push the hiddenEdgeStackBottom as a record of how many hidden
-    // edges were pushed (also, see above for Contract Edge adjustment)
-    sp_Push(theGraph->theStack, hiddenEdgeStackBottom);
-
-    // Moving v's adjacency list to u is aided by knowing the predecessor
-    // of u's eBefore (the edge record in u's list before which the
-    // edge records of v will be added).
-    eBeforePred = gp_IsArc(eBefore)
-                      ? gp_GetPrevArc(theGraph, eBefore)
-                      : gp_GetLastArc(theGraph, u);
-
-    // Turns out we only need to record six integers related to the edges
-    // being moved in order to easily restore them later.
-    sp_Push(theGraph->theStack, eBefore);
-    sp_Push(theGraph->theStack, gp_GetLastArc(theGraph, v));
-    sp_Push(theGraph->theStack, gp_GetFirstArc(theGraph, v));
-    sp_Push(theGraph->theStack, eBeforePred);
-    sp_Push(theGraph->theStack, u);
-    sp_Push(theGraph->theStack, v);
-
-    // For the remaining edge records of v, reassign the 'v' member
-    //    of each twin arc to indicate u rather than v.
-    e = gp_GetFirstArc(theGraph, v);
-    while (gp_IsArc(e))
-    {
-        gp_SetNeighbor(theGraph, gp_GetTwinArc(theGraph, e), u);
-        e = gp_GetNextArc(theGraph, e);
-    }
-
-    // If v has any edges left after hiding edges, indicating common neighbors with u, ...
-    if (gp_IsArc(gp_GetFirstArc(theGraph, v)))
-    {
-        // Then perform the list union of v into u between eBeforePred and eBefore
-        if (gp_IsArc(eBeforePred))
-        {
-            if (gp_IsArc(gp_GetFirstArc(theGraph, v)))
-            {
-                gp_SetNextArc(theGraph, eBeforePred, gp_GetFirstArc(theGraph, v));
-                gp_SetPrevArc(theGraph, gp_GetFirstArc(theGraph, v), eBeforePred);
-            }
-        }
-        else
-        {
-            gp_SetFirstArc(theGraph, u, gp_GetFirstArc(theGraph, v));
-        }
-
-        if (gp_IsArc(eBefore))
-        {
-            if (gp_IsArc(gp_GetLastArc(theGraph, v)))
-            {
-                gp_SetNextArc(theGraph, gp_GetLastArc(theGraph, v), eBefore);
-                gp_SetPrevArc(theGraph, eBefore, gp_GetLastArc(theGraph, v));
-            }
-        }
-        else
-        {
-            gp_SetLastArc(theGraph, u, gp_GetLastArc(theGraph, v));
-        }
-
-        gp_SetFirstArc(theGraph, v, NIL);
-        gp_SetLastArc(theGraph, v, NIL);
-    }
-
-    return OK;
-}
-
-/********************************************************************
- gp_RestoreVertex()
-
- This method assumes the built-in graph stack contents are the result
- of vertex hide, vertex identify and edge contract operations.
- This content consists of segments of integers, each segment
- corresponding to the removal of a vertex during an edge contraction
- or vertex identification in which a vertex v was merged into a
- vertex u.  The segment contains two blocks of integers.
- The first block contains information about u, v, the edge records
- in v's adjacency list that were added to u, and where in u's
- adjacency list they were added.  The second block of integers
- contains a list of edges incident to v that were hidden from the
- graph because they were incident to neighbors of v that were also
- neighbors of u (so they would have produced duplicate edges had
- they been left in v's adjacency list when it was merged with u's
- adjacency list).
-
- This method pops the first block of the segment off the stack and
- uses the information to help remove v's adjacency list from u and
- restore it into v.  Then, the second block is removed from the
- stack, and each indicated edge is restored from the hidden state.
-
- It is anticipated that this method will be overloaded by extension
- algorithms to perform some processing as each vertex is restored.
- Before restoration, the topmost segment has the following structure:
-
- ... FHE ... LHE HESB e_u_succ e_v_last e_v_first e_u_pred u v
-      ^------------|
-
- FHE = First hidden edge
- LHE = Last hidden edge
- HESB = Hidden edge stack bottom
- e_u_succ, e_u_pred = The edges of u between which the edges of v
-                      were inserted. NIL can appear if the edges of v
-                      were added to the beginning or end of u's list
- e_v_first, e_v_last = The first and last edges of v's list, once
-                       the hidden edges were removed
-
- Returns OK for success, NOTOK for internal failure.
- ********************************************************************/
-
-int gp_RestoreVertex(graphP theGraph)
-{
-    return theGraph->functions.fpRestoreVertex(theGraph);
-}
-
-int _RestoreVertex(graphP theGraph)
-{
-    int u, v, e_u_succ, e_u_pred, e_v_first, e_v_last, HESB, e;
-
-    if (sp_GetCurrentSize(theGraph->theStack) < 7)
-        return NOTOK;
-
-    sp_Pop(theGraph->theStack, v);
-    sp_Pop(theGraph->theStack, u);
-    sp_Pop(theGraph->theStack, e_u_pred);
-    sp_Pop(theGraph->theStack, e_v_first);
-    sp_Pop(theGraph->theStack, e_v_last);
-    sp_Pop(theGraph->theStack, e_u_succ);
-
-    // If u is not NIL, then vertex v was identified with u.  Otherwise, v was
-    // simply hidden, so we skip to restoring the hidden edges.
-    if (gp_IsVertex(u))
-    {
-        // Remove v's adjacency list from u, including accounting for degree 0 case
-        if (gp_IsArc(e_u_pred))
-        {
-            gp_SetNextArc(theGraph, e_u_pred, e_u_succ);
-            // If the successor edge exists, link it to the predecessor,
-            // otherwise the predecessor is the new last arc
-            if (gp_IsArc(e_u_succ))
-                gp_SetPrevArc(theGraph, e_u_succ, e_u_pred);
-            else
-                gp_SetLastArc(theGraph, u, e_u_pred);
-        }
-        else if (gp_IsArc(e_u_succ))
-        {
-            // The successor arc exists, but not the predecessor,
-            // so the successor is the new first arc
-            gp_SetPrevArc(theGraph, e_u_succ, NIL);
-            gp_SetFirstArc(theGraph, u, e_u_succ);
-        }
-        else
-        {
-            // Just in case u was degree zero
-            gp_SetFirstArc(theGraph, u, NIL);
-            gp_SetLastArc(theGraph, u, NIL);
-        }
-
-        // Place v's adjacency list into v, including accounting for degree 0 case
-        gp_SetFirstArc(theGraph, v, e_v_first);
-        gp_SetLastArc(theGraph, v, e_v_last);
-        if (gp_IsArc(e_v_first))
-            gp_SetPrevArc(theGraph, e_v_first, NIL);
-        if (gp_IsArc(e_v_last))
-            gp_SetNextArc(theGraph, e_v_last, NIL);
-
-        // For each edge record restored to v's adjacency list, reassign the 'v' member
-        //    of each twin arc to indicate v rather than u.
-        e = e_v_first;
-        while (gp_IsArc(e))
-        {
-            gp_SetNeighbor(theGraph, gp_GetTwinArc(theGraph, e), v);
-            e = (e == e_v_last ? NIL : gp_GetNextArc(theGraph, e));
-        }
-    }
-
-    // Restore the hidden edges of v, if any
-    sp_Pop(theGraph->theStack, HESB);
-    return _RestoreHiddenEdges(theGraph, HESB);
-}
-
-/********************************************************************
- gp_RestoreVertices()
-
- This method assumes the built-in graph stack has content consistent
- with numerous vertex identification or edge contraction operations.
- This method unwinds the stack, moving edges back to their original
- vertex owners and restoring hidden edges.
- This method is a simple iterator that invokes gp_RestoreVertex()
- until the stack is empty, so extension algorithms are more likely
- to overload gp_RestoreVertex().
-
- Returns OK for success, NOTOK for internal failure.
- ********************************************************************/
-
-int gp_RestoreVertices(graphP theGraph)
-{
-    while (sp_NonEmpty(theGraph->theStack))
-    {
-        if (gp_RestoreVertex(theGraph) != OK)
-            return NOTOK;
-    }
-
-    return OK;
-}
-
-/****************************************************************************
- _ComputeArcType()
- This is just a little helper function that automates a sequence of decisions
- that has to be made a number of times.
- An edge record is being added to the adjacency list of a; it indicates that
- b is a neighbor.  The edgeType can be either 'tree' (EDGE_TYPE_PARENT or
- EDGE_TYPE_CHILD) or 'cycle' (EDGE_TYPE_BACK or EDGE_TYPE_FORWARD).
- If a or b is a root copy, we translate to the non-virtual counterpart,
- then wedetermine which has the lesser DFI.  If a has the lower DFI then the
- edge record is a tree edge to a child (EDGE_TYPE_CHILD) if edgeType indicates
- a tree edge.  If edgeType indicates a cycle edge, then it is a forward cycle
- edge (EDGE_TYPE_FORWARD) to a descendant.
- Symmetric conditions define the types for a > b.
- ****************************************************************************/
-
-int _ComputeArcType(graphP theGraph, int a, int b, int edgeType)
-{
-    a = gp_IsVirtualVertex(theGraph, a) ? gp_GetPrimaryVertexFromRoot(theGraph, a) : a;
-    b = gp_IsVirtualVertex(theGraph, b) ? gp_GetPrimaryVertexFromRoot(theGraph, b) : b;
-
-    if (a < b)
-        return edgeType == EDGE_TYPE_PARENT || edgeType == EDGE_TYPE_CHILD ? EDGE_TYPE_CHILD : EDGE_TYPE_FORWARD;
-
-    return edgeType == EDGE_TYPE_PARENT || edgeType == EDGE_TYPE_CHILD ? EDGE_TYPE_PARENT : EDGE_TYPE_BACK;
-}
-
-/****************************************************************************
- _SetEdgeType()
- When we are restoring an edge, we must restore its type (tree edge or cycle edge).
- We can deduce what the type was based on other information in the graph. Each
- arc of the edge gets the appropriate type setting (parent/child or back/forward).
- This method runs in constant time plus the degree of vertex u, or constant
- time if u is known to have a degree bound by a constant.
- ****************************************************************************/
-
-int _SetEdgeType(graphP theGraph, int u, int v)
-{
-    int e, eTwin, u_orig, v_orig;
-
-    // If u or v is a virtual vertex (a root copy), then get the non-virtual counterpart.
-    u_orig = gp_IsVirtualVertex(theGraph, u) ? (gp_GetPrimaryVertexFromRoot(theGraph, u)) : u;
-    v_orig = gp_IsVirtualVertex(theGraph, v) ? (gp_GetPrimaryVertexFromRoot(theGraph, v)) : v;
-
-    // Get the edge for which we will set the type
-
-    e = gp_GetNeighborEdgeRecord(theGraph, u, v);
-    eTwin = gp_GetTwinArc(theGraph, e);
-
-    // If u_orig is the parent of v_orig, or vice versa, then the edge is a tree edge
-
-    if (gp_GetVertexParent(theGraph, v_orig) == u_orig ||
-        gp_GetVertexParent(theGraph, u_orig) == v_orig)
-    {
-        if (u_orig > v_orig)
-        {
-            gp_ResetEdgeType(theGraph, e, EDGE_TYPE_PARENT);
-            gp_ResetEdgeType(theGraph, eTwin, EDGE_TYPE_CHILD);
-        }
-        else
-        {
-            gp_ResetEdgeType(theGraph, eTwin, EDGE_TYPE_PARENT);
-            gp_ResetEdgeType(theGraph, e, EDGE_TYPE_CHILD);
-        }
-    }
-
-    // Otherwise it is a back edge
-
-    else
-    {
-        if (u_orig > v_orig)
-        {
-            gp_ResetEdgeType(theGraph, e, EDGE_TYPE_BACK);
-            gp_ResetEdgeType(theGraph, eTwin, EDGE_TYPE_FORWARD);
-        }
-        else
-        {
-            gp_ResetEdgeType(theGraph, eTwin, EDGE_TYPE_BACK);
-            gp_ResetEdgeType(theGraph, e, EDGE_TYPE_FORWARD);
-        }
-    }
-
-    return OK;
-}
-
-/********************************************************************
- _DeleteUnmarkedEdgesInBicomp()
-
- This function deletes from a given biconnected component all edges
- whose visited member is zero.
-
- The stack is used but preserved. In debug mode, NOTOK can result if
- there is a stack overflow. This method pushes at most one integer
- per vertex in the bicomp.
-
- Returns OK on success, NOTOK on implementation failure
- ********************************************************************/
-
-int _DeleteUnmarkedEdgesInBicomp(graphP theGraph, int BicompRoot)
-{
-    int V, e;
-    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
-
-    sp_Push(theGraph->theStack, BicompRoot);
-    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
-    {
-        sp_Pop(theGraph->theStack, V);
-
-        e = gp_GetFirstArc(theGraph, V);
-        while (gp_IsArc(e))
-        {
-            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
-                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
-
-            e = gp_GetEdgeVisited(theGraph, e) ? gp_GetNextArc(theGraph, e) : gp_DeleteEdge(theGraph, e, 0);
-        }
-    }
-    return OK;
-}
-
-/********************************************************************
- _ClearInvertedFlagsInBicomp()
-
- This function clears the inverted flag markers on any edges in a
- given biconnected component.
-
- The stack is used but preserved. In debug mode, NOTOK can result if
- there is a stack overflow. This method pushes at most one integer
- per vertex in the bicomp.
-
- Returns OK on success, NOTOK on implementation failure
- ********************************************************************/
-
-int _ClearInvertedFlagsInBicomp(graphP theGraph, int BicompRoot)
-{
-    int V, e;
-    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
-
-    sp_Push(theGraph->theStack, BicompRoot);
-    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
-    {
-        sp_Pop(theGraph->theStack, V);
-
-        e = gp_GetFirstArc(theGraph, V);
-        while (gp_IsArc(e))
-        {
-            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
-            {
-                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
-                gp_ClearEdgeFlagInverted(theGraph, e);
-            }
-
-            e = gp_GetNextArc(theGraph, e);
-        }
-    }
-    return OK;
-}
-
-/********************************************************************
- _GetBicompSize()
-
- Determine the number of vertices in the bicomp.
-
- The stack is used but preserved. In debug mode, NOTOK can result if
- there is a stack overflow. This method pushes at most one integer
- per vertex in the bicomp.
-
- Returns a positive number on success, NOTOK on implementation failure
- ********************************************************************/
-
-int _GetBicompSize(graphP theGraph, int BicompRoot)
-{
-    int V, e;
-    int theSize = 0;
-    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
-
-    sp_Push(theGraph->theStack, BicompRoot);
-    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
-    {
-        sp_Pop(theGraph->theStack, V);
-        theSize++;
-        e = gp_GetFirstArc(theGraph, V);
-        while (gp_IsArc(e))
-        {
-            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
-                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
-
-            e = gp_GetNextArc(theGraph, e);
-        }
-    }
-    return theSize;
-}
-
-/********************************************************************
- debugNOTOK()
- This function provides a non-void wrapper for exit().
- This is useful for debugging as it allows compilation of an exit
- command in places where NOTOK is returned.
- In exhaustive testing, we want to bail on the first NOTOK that occurs.
- Comment out the exit() call to get a stack trace.
- ********************************************************************/
-
-int debugNOTOK(void)
-{
-    // exit(-1);
-    return 0; // NOTOK is normally defined to be zero
-}
+/*
+Copyright (c) 1997-2022, John M. Boyer
+All rights reserved.
+See the LICENSE.TXT file for licensing information.
+*/
+
+#include <stdlib.h>
+
+#include "graphStructures.h"
+#include "graph.h"
+
+/* Imported functions for FUNCTION POINTERS */
+
+extern int _EmbeddingInitialize(graphP theGraph);
+extern int _SortVertices(graphP theGraph);
+extern void _EmbedBackEdgeToDescendant(graphP theGraph, int RootSide, int RootVertex, int W, int WPrevLink);
+extern void _WalkUp(graphP theGraph, int v, int e);
+extern int _WalkDown(graphP theGraph, int v, int RootVertex);
+extern int _MergeBicomps(graphP theGraph, int v, int RootVertex, int W, int WPrevLink);
+extern void _MergeVertex(graphP theGraph, int W, int WPrevLink, int R);
+extern int _HandleBlockedBicomp(graphP theGraph, int v, int RootVertex, int R);
+extern int _HandleInactiveVertex(graphP theGraph, int BicompRoot, int *pW, int *pWPrevLink);
+extern int _MarkDFSPath(graphP theGraph, int ancestor, int descendant);
+extern int _EmbedPostprocess(graphP theGraph, int v, int edgeEmbeddingResult);
+extern int _CheckEmbeddingIntegrity(graphP theGraph, graphP origGraph);
+extern int _CheckObstructionIntegrity(graphP theGraph, graphP origGraph);
+extern int _ReadPostprocess(graphP theGraph, void *extraData, long extraDataSize);
+extern int _WritePostprocess(graphP theGraph, void **pExtraData, long *pExtraDataSize);
+
+/* Internal util functions for FUNCTION POINTERS */
+
+int _HideVertex(graphP theGraph, int vertex);
+void _HideEdge(graphP theGraph, int arcPos);
+void _RestoreEdge(graphP theGraph, int arcPos);
+int _ContractEdge(graphP theGraph, int e);
+int _IdentifyVertices(graphP theGraph, int u, int v, int eBefore);
+int _RestoreVertex(graphP theGraph);
+
+/********************************************************************
+ Private functions, except exported within library
+ ********************************************************************/
+
+void _InitIsolatorContext(graphP theGraph);
+void _ClearVisitedFlags(graphP theGraph);
+void _ClearVertexVisitedFlags(graphP theGraph, int);
+void _ClearEdgeVisitedFlags(graphP theGraph);
+int _ClearVisitedFlagsInBicomp(graphP theGraph, int BicompRoot);
+int _ClearVisitedFlagsInOtherBicomps(graphP theGraph, int BicompRoot);
+void _ClearVisitedFlagsInUnembeddedEdges(graphP theGraph);
+int _FillVertexVisitedInfoInBicomp(graphP theGraph, int BicompRoot, int FillValue);
+int _ClearVertexTypeInBicomp(graphP theGraph, int BicompRoot);
+
+int _HideInternalEdges(graphP theGraph, int vertex);
+int _RestoreInternalEdges(graphP theGraph, int stackBottom);
+int _RestoreHiddenEdges(graphP theGraph, int stackBottom);
+
+int _GetBicompSize(graphP theGraph, int BicompRoot);
+int _DeleteUnmarkedEdgesInBicomp(graphP theGraph, int BicompRoot);
+int _ClearInvertedFlagsInBicomp(graphP theGraph, int BicompRoot);
+
+void _InitFunctionTable(graphP theGraph);
+
+/********************************************************************
+ Private functions.
+ ********************************************************************/
+
+void _InitVertices(graphP theGraph);
+void _InitEdges(graphP theGraph);
+
+void _ClearGraph(graphP theGraph);
+
+int _GetRandomNumber(int NMin, int NMax);
+
+/* Private functions for which there are FUNCTION POINTERS */
+
+void _InitVertexRec(graphP theGraph, int v);
+void _InitVertexInfo(graphP theGraph, int v);
+void _InitEdgeRec(graphP theGraph, int e);
+
+int _InitGraph(graphP theGraph, int N);
+void _ReinitializeGraph(graphP theGraph);
+int _EnsureArcCapacity(graphP theGraph, int requiredArcCapacity);
+
+/********************************************************************
+ gp_New()
+ Constructor for graph object.
+ Can create two graphs if restricted to no dynamic memory.
+ ********************************************************************/
+
+graphP gp_New(void)
+{
+    graphP theGraph = (graphP)malloc(sizeof(baseGraphStructure));
+
+    if (theGraph != NULL)
+    {
+        theGraph->E = NULL;
+        theGraph->V = NULL;
+        theGraph->VI = NULL;
+
+        theGraph->BicompRootLists = NULL;
+        theGraph->sortedDFSChildLists = NULL;
+        theGraph->theStack = NULL;
+
+        theGraph->extFace = NULL;
+
+        theGraph->edgeHoles = NULL;
+
+        theGraph->extensions = NULL;
+
+        _InitFunctionTable(theGraph);
+
+        _ClearGraph(theGraph);
+    }
+
+    return theGraph;
+}
+
+/********************************************************************
+ _InitFunctionTable()
+
+ If you add functions to the function table, then they must be
+ initialized here, but you must also add the new function pointer
+ to the definition of the graphFunctionTable in graphFunctionTable.h
+
+ Function headers for the functions used to initialize the table are
+ classified at the top of this file as either imported from other
+ compilation units (extern) or private to this compilation unit.
+ Search for FUNCTION POINTERS in this file to see where to add the
+ function header.
+ ********************************************************************/
+
+void _InitFunctionTable(graphP theGraph)
+{
+    theGraph->functions.fpEmbeddingInitialize = _EmbeddingInitialize;
+    theGraph->functions.fpEmbedBackEdgeToDescendant = _EmbedBackEdgeToDescendant;
+    theGraph->functions.fpWalkUp = _WalkUp;
+    theGraph->functions.fpWalkDown = _WalkDown;
+    theGraph->functions.fpMergeBicomps = _MergeBicomps;
+    theGraph->functions.fpMergeVertex = _MergeVertex;
+    theGraph->functions.fpHandleBlockedBicomp = _HandleBlockedBicomp;
+    theGraph->functions.fpHandleInactiveVertex = _HandleInactiveVertex;
+    theGraph->functions.fpEmbedPostprocess = _EmbedPostprocess;
+    theGraph->functions.fpMarkDFSPath = _MarkDFSPath;
+    theGraph->functions.fpCheckEmbeddingIntegrity = _CheckEmbeddingIntegrity;
+    theGraph->functions.fpCheckObstructionIntegrity = _CheckObstructionIntegrity;
+
+    theGraph->functions.fpInitGraph = _InitGraph;
+    theGraph->functions.fpReinitializeGraph = _ReinitializeGraph;
+    theGraph->functions.fpEnsureArcCapacity = _EnsureArcCapacity;
+    theGraph->functions.fpSortVertices = _SortVertices;
+
+    theGraph->functions.fpReadPostprocess = _ReadPostprocess;
+    theGraph->functions.fpWritePostprocess = _WritePostprocess;
+
+    theGraph->functions.fpHideEdge = _HideEdge;
+    theGraph->functions.fpRestoreEdge = _RestoreEdge;
+    theGraph->functions.fpHideVertex = _HideVertex;
+    theGraph->functions.fpRestoreVertex = _RestoreVertex;
+    theGraph->functions.fpContractEdge = _ContractEdge;
+    theGraph->functions.fpIdentifyVertices = _IdentifyVertices;
+}
+
+/********************************************************************
+ gp_InitGraph()
+ Allocates memory for vertex and edge records now that N is known.
+ The arcCapacity is set to (2 * DEFAULT_EDGE_LIMIT * N) unless it
+     has already been set by gp_EnsureArcCapacity()
+
+ For V, we need 2N vertex records, N for vertices and N for virtual vertices (root copies).
+
+ For VI, we need N vertexInfo records.
+
+ For E, we need arcCapacity edge records.
+
+ The BicompRootLists and sortedDFSChildLists are of size N and start out empty.
+
+ The stack, initially empty, is made big enough for a pair of integers
+     per edge record (2 * arcCapacity), or 6N integers if the arcCapacity
+     was set below the default value.
+
+ The edgeHoles stack, initially empty, is set to arcCapacity / 2,
+     which is big enough to push every edge (to indicate an edge
+     you only need to indicate one of its two edge records)
+
+  Returns OK on success, NOTOK on all failures.
+          On NOTOK, graph extensions are freed so that the graph is
+          returned to the post-condition of gp_New().
+ ********************************************************************/
+
+int gp_InitGraph(graphP theGraph, int N)
+{
+    // valid params check
+    if (theGraph == NULL || N <= 0)
+        return NOTOK;
+
+    // Should not call init a second time; use reinit
+    if (theGraph->N)
+        return NOTOK;
+
+    return theGraph->functions.fpInitGraph(theGraph, N);
+}
+
+int _InitGraph(graphP theGraph, int N)
+{
+    int Vsize, VIsize, Esize, stackSize;
+
+    // Compute the vertex and edge capacities of the graph
+    theGraph->N = N;
+    theGraph->NV = N;
+    theGraph->arcCapacity = theGraph->arcCapacity > 0 ? theGraph->arcCapacity : 2 * DEFAULT_EDGE_LIMIT * N;
+    VIsize = gp_PrimaryVertexIndexBound(theGraph);
+    Vsize = gp_VertexIndexBound(theGraph);
+    Esize = gp_EdgeIndexBound(theGraph);
+
+    // Stack size is 2 integers per arc, or 6 integers per vertex in case of small arcCapacity
+    stackSize = 2 * Esize;
+    stackSize = stackSize < 6 * N ? 6 * N : stackSize;
+
+    // Allocate memory as described above
+    if ((theGraph->V = (vertexRecP)calloc(Vsize, sizeof(vertexRec))) == NULL ||
+        (theGraph->VI = (vertexInfoP)calloc(VIsize, sizeof(vertexInfo))) == NULL ||
+        (theGraph->E = (edgeRecP)calloc(Esize, sizeof(edgeRec))) == NULL ||
+        (theGraph->BicompRootLists = LCNew(VIsize)) == NULL ||
+        (theGraph->sortedDFSChildLists = LCNew(VIsize)) == NULL ||
+        (theGraph->theStack = sp_New(stackSize)) == NULL ||
+        (theGraph->extFace = (extFaceLinkRecP)calloc(Vsize, sizeof(extFaceLinkRec))) == NULL ||
+        (theGraph->edgeHoles = sp_New(Esize / 2)) == NULL ||
+        0)
+    {
+        _ClearGraph(theGraph);
+        return NOTOK;
+    }
+
+    // Initialize memory
+    _InitVertices(theGraph);
+    _InitEdges(theGraph);
+    _InitIsolatorContext(theGraph);
+
+    return OK;
+}
+
+/********************************************************************
+ _InitVertices()
+ ********************************************************************/
+void _InitVertices(graphP theGraph)
+{
+#if NIL == 0
+    memset(theGraph->V, NIL_CHAR, gp_VertexIndexBound(theGraph) * sizeof(vertexRec));
+    memset(theGraph->VI, NIL_CHAR, gp_PrimaryVertexIndexBound(theGraph) * sizeof(vertexInfo));
+    memset(theGraph->extFace, NIL_CHAR, gp_VertexIndexBound(theGraph) * sizeof(extFaceLinkRec));
+#elif NIL == -1
+    int v;
+
+    memset(theGraph->V, NIL_CHAR, gp_VertexIndexBound(theGraph) * sizeof(vertexRec));
+    memset(theGraph->VI, NIL_CHAR, gp_PrimaryVertexIndexBound(theGraph) * sizeof(vertexInfo));
+    memset(theGraph->extFace, NIL_CHAR, gp_VertexIndexBound(theGraph) * sizeof(extFaceLinkRec));
+
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+        gp_InitVertexFlags(theGraph, v);
+
+#else
+    int v;
+
+    // Initialize primary vertices
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+    {
+        _InitVertexRec(theGraph, v);
+        _InitVertexInfo(theGraph, v);
+        gp_SetExtFaceVertex(theGraph, v, 0, NIL);
+        gp_SetExtFaceVertex(theGraph, v, 1, NIL);
+    }
+
+    // Initialize virtual vertices
+    for (v = gp_GetFirstVirtualVertex(theGraph); gp_VirtualVertexInRange(theGraph, v); v++)
+    {
+        _InitVertexRec(theGraph, v);
+        gp_SetExtFaceVertex(theGraph, v, 0, NIL);
+        gp_SetExtFaceVertex(theGraph, v, 1, NIL);
+    }
+#endif
+}
+
+/********************************************************************
+ _InitEdges()
+ ********************************************************************/
+void _InitEdges(graphP theGraph)
+{
+#if NIL == 0
+    memset(theGraph->E, NIL_CHAR, gp_EdgeIndexBound(theGraph) * sizeof(edgeRec));
+#elif NIL == -1
+    int e, Esize;
+
+    memset(theGraph->E, NIL_CHAR, gp_EdgeIndexBound(theGraph) * sizeof(edgeRec));
+
+    Esize = gp_EdgeIndexBound(theGraph);
+    for (e = gp_GetFirstEdge(theGraph); e < Esize; e++)
+        gp_InitEdgeFlags(theGraph, e);
+
+#else
+    int e, Esize;
+
+    Esize = gp_EdgeIndexBound(theGraph);
+    for (e = gp_GetFirstEdge(theGraph); e < Esize; e++)
+        _InitEdgeRec(theGraph, e);
+#endif
+}
+
+/********************************************************************
+ gp_ReinitializeGraph()
+ Reinitializes a graph, restoring it to the state it was in immediately
+ after gp_InitGraph() processed it.
+ ********************************************************************/
+
+void gp_ReinitializeGraph(graphP theGraph)
+{
+    if (theGraph == NULL || theGraph->N <= 0)
+        return;
+
+    theGraph->functions.fpReinitializeGraph(theGraph);
+}
+
+void _ReinitializeGraph(graphP theGraph)
+{
+    theGraph->M = 0;
+    theGraph->internalFlags = theGraph->embedFlags = 0;
+
+    _InitVertices(theGraph);
+    _InitEdges(theGraph);
+    _InitIsolatorContext(theGraph);
+
+    LCReset(theGraph->BicompRootLists);
+    LCReset(theGraph->sortedDFSChildLists);
+    sp_ClearStack(theGraph->theStack);
+    sp_ClearStack(theGraph->edgeHoles);
+}
+
+/********************************************************************
+ gp_GetArcCapacity()
+ Returns the arcCapacity of theGraph, which is twice the maximum
+ number of edges that can be added to the theGraph.
+ ********************************************************************/
+int gp_GetArcCapacity(graphP theGraph)
+{
+    return theGraph->arcCapacity;
+}
+
+/********************************************************************
+ gp_EnsureArcCapacity()
+ This method ensures that theGraph is or will be capable of storing
+ at least requiredArcCapacity edge records.  Two edge records are
+ needed per edge.
+
+ This method is most performant when invoked immediately after
+ gp_New(), since it must only set the arcCapacity and then let
+ normal initialization to occur through gp_InitGraph().
+
+ This method is also a constant time operation if the graph already
+ has at least the requiredArcCapacity, since it will return OK
+ without making any structural changes.
+
+ This method is generally more performant if it is invoked before
+ attaching extensions to the graph.  Some extensions associate
+ parallel data with edge records, which is a faster operation if
+ the associated data is created and initialized only after the
+ proper arcCapacity is specified.
+
+ If the graph has been initialized and has a lower arc capacity,
+ then the array of edge records is reallocated to satisfy the
+ requiredArcCapacity.  The new array contains the old edges and
+ edge holes at the same locations, and all newly created edge records
+ are initialized.
+
+ Also, if the arc capacity must be increased, then the
+ arcCapacity member of theGraph is changed and both
+ theStack and edgeHoles are expanded (since the sizes of both
+ are based on the arc capacity).
+
+ Extensions that add to data associated with edges must overload
+ this method to ensure capacity in the parallel extension data
+ structures.  An extension can return NOTOK if it does not
+ support arc capacity expansion.  The extension function will
+ not be called if arcCapacity is expanded before the graph is
+ initialized, and it is assumed that extensions will allocate
+ parallel data structures according to the arc capacity.
+
+ If an extension supports arc capacity expansion, then higher
+ performance can be obtained by using the method of unhooking
+ the initializers for individual edge records before invoking
+ the superclass version of fpEnsureArcCapacity().  Ideally,
+ application authors should ensure the proper arc capacity before
+ attaching extensions to achieve better performance.
+
+ Returns NOTOK on failure to reallocate the edge record array to
+         satisfy the requiredArcCapacity, or if the requested
+         capacity is odd
+         OK if reallocation is not required or if reallocation succeeds
+ ********************************************************************/
+int gp_EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
+{
+    if (theGraph == NULL || requiredArcCapacity <= 0)
+        return NOTOK;
+
+    // Train callers to only ask for an even number of arcs, since
+    // two are required per edge or directed edge.
+    if (requiredArcCapacity & 1)
+        return NOTOK;
+
+    if (theGraph->arcCapacity >= requiredArcCapacity)
+        return OK;
+
+    // In the special case where gp_InitGraph() has not yet been called,
+    // we can simply set the higher arcCapacity since normal initialization
+    // will then allocate the correct number of edge records.
+    if (theGraph->N == 0)
+    {
+        theGraph->arcCapacity = requiredArcCapacity;
+        return OK;
+    }
+
+    // Try to expand the arc capacity
+    return theGraph->functions.fpEnsureArcCapacity(theGraph, requiredArcCapacity);
+}
+
+int _EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
+{
+    stackP newStack;
+    edgeRecP newE;
+    int e, Esize = gp_EdgeIndexBound(theGraph),
+           newEsize = gp_GetFirstEdge(theGraph) + requiredArcCapacity;
+
+    // If the new size is less than or equal to the old size, then
+    // the graph already has the required arc capacity
+    if (newEsize <= Esize)
+        return OK;
+
+    // Expand theStack
+    if (sp_GetCapacity(theGraph->theStack) < 2 * requiredArcCapacity)
+    {
+        int stackSize = 2 * requiredArcCapacity;
+
+        if (stackSize < 6 * theGraph->N)
+        {
+            // NOTE: Since this routine only makes the stack bigger, this
+            //       calculation is not needed here because we already ensured
+            //       we had stack capacity of the greater of 2*arcs and 6*N
+            //       But we do it for clarity and consistency (e.g. so this rule
+            //       is not forgotten whenever a "SetArcCapacity" method or a
+            //       "reduceArcCapacity" method is added)
+            stackSize = 6 * theGraph->N;
+        }
+
+        if ((newStack = sp_New(stackSize)) == NULL)
+            return NOTOK;
+
+        sp_CopyContent(newStack, theGraph->theStack);
+        sp_Free(&theGraph->theStack);
+        theGraph->theStack = newStack;
+    }
+
+    // Expand edgeHoles
+    if ((newStack = sp_New(requiredArcCapacity / 2)) == NULL)
+    {
+        return NOTOK;
+    }
+
+    sp_CopyContent(newStack, theGraph->edgeHoles);
+    sp_Free(&theGraph->edgeHoles);
+    theGraph->edgeHoles = newStack;
+
+    // Reallocate the edgeRec array to the new size,
+    newE = (edgeRecP)realloc(theGraph->E, newEsize * sizeof(edgeRec));
+    if (newE == NULL)
+        return NOTOK;
+    theGraph->E = newE;
+
+    // Initialize the new edge records
+    for (e = Esize; e < newEsize; e++)
+        _InitEdgeRec(theGraph, e);
+
+    // The new arcCapacity has been successfully achieved
+    theGraph->arcCapacity = requiredArcCapacity;
+    return OK;
+}
+
+/********************************************************************
+ _InitVertexRec()
+ Sets the fields in a single vertex record to initial values
+ ********************************************************************/
+
+void _InitVertexRec(graphP theGraph, int v)
+{
+    gp_SetFirstArc(theGraph, v, NIL);
+    gp_SetLastArc(theGraph, v, NIL);
+    gp_SetVertexIndex(theGraph, v, NIL);
+    gp_InitVertexFlags(theGraph, v);
+}
+
+/********************************************************************
+ _InitVertexInfo()
+ Sets the fields in a single vertex record to initial values
+ ********************************************************************/
+
+void _InitVertexInfo(graphP theGraph, int v)
+{
+    gp_SetVertexParent(theGraph, v, NIL);
+    gp_SetVertexLeastAncestor(theGraph, v, NIL);
+    gp_SetVertexLowpoint(theGraph, v, NIL);
+
+    gp_SetVertexVisitedInfo(theGraph, v, NIL);
+    gp_SetVertexPertinentEdge(theGraph, v, NIL);
+    gp_SetVertexPertinentRootsList(theGraph, v, NIL);
+    gp_SetVertexFuturePertinentChild(theGraph, v, NIL);
+    gp_SetVertexSortedDFSChildList(theGraph, v, NIL);
+    gp_SetVertexFwdArcList(theGraph, v, NIL);
+}
+
+/********************************************************************
+ _InitEdgeRec()
+ Sets the fields in a single edge record structure to initial values
+ ********************************************************************/
+
+void _InitEdgeRec(graphP theGraph, int e)
+{
+    gp_SetNeighbor(theGraph, e, NIL);
+    gp_SetPrevArc(theGraph, e, NIL);
+    gp_SetNextArc(theGraph, e, NIL);
+    gp_InitEdgeFlags(theGraph, e);
+}
+
+/********************************************************************
+ _InitIsolatorContext()
+ ********************************************************************/
+
+void _InitIsolatorContext(graphP theGraph)
+{
+    isolatorContextP IC = &theGraph->IC;
+
+    IC->minorType = 0;
+    IC->v = IC->r = IC->x = IC->y = IC->w = IC->px = IC->py = IC->z =
+        IC->ux = IC->dx = IC->uy = IC->dy = IC->dw = IC->uz = IC->dz = NIL;
+}
+
+/********************************************************************
+ _ClearVisitedFlags()
+ ********************************************************************/
+
+void _ClearVisitedFlags(graphP theGraph)
+{
+    _ClearVertexVisitedFlags(theGraph, TRUE);
+    _ClearEdgeVisitedFlags(theGraph);
+}
+
+/********************************************************************
+ _ClearVertexVisitedFlags()
+ ********************************************************************/
+
+void _ClearVertexVisitedFlags(graphP theGraph, int includeVirtualVertices)
+{
+    int v;
+
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+        gp_ClearVertexVisited(theGraph, v);
+
+    if (includeVirtualVertices)
+        for (v = gp_GetFirstVirtualVertex(theGraph); gp_VirtualVertexInRange(theGraph, v); v++)
+            gp_ClearVertexVisited(theGraph, v);
+}
+
+/********************************************************************
+ _ClearEdgeVisitedFlags()
+ ********************************************************************/
+
+void _ClearEdgeVisitedFlags(graphP theGraph)
+{
+    int e, EsizeOccupied;
+
+    EsizeOccupied = gp_EdgeInUseIndexBound(theGraph);
+    for (e = gp_GetFirstEdge(theGraph); e < EsizeOccupied; e++)
+        gp_ClearEdgeVisited(theGraph, e);
+}
+
+/********************************************************************
+ _ClearVisitedFlagsInBicomp()
+
+ Clears the visited flag of the vertices and arcs in the bicomp rooted
+ by BicompRoot.
+
+ This method uses the stack but preserves whatever may have been
+ on it.  In debug mode, it will return NOTOK if the stack overflows.
+ This method pushes at most one integer per vertex in the bicomp.
+
+ Returns OK on success, NOTOK on implementation failure.
+ ********************************************************************/
+
+int _ClearVisitedFlagsInBicomp(graphP theGraph, int BicompRoot)
+{
+    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
+    int v, e;
+
+    sp_Push(theGraph->theStack, BicompRoot);
+    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
+    {
+        sp_Pop(theGraph->theStack, v);
+        gp_ClearVertexVisited(theGraph, v);
+
+        e = gp_GetFirstArc(theGraph, v);
+        while (gp_IsArc(e))
+        {
+            gp_ClearEdgeVisited(theGraph, e);
+
+            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
+                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
+
+            e = gp_GetNextArc(theGraph, e);
+        }
+    }
+    return OK;
+}
+
+/********************************************************************
+ _ClearVisitedFlagsInOtherBicomps()
+ Typically, we want to clear all visited flags in the graph
+ (see _ClearVisitedFlags).  However, in some algorithms this would be
+ too costly, so it is necessary to clear the visited flags only
+ in one bicomp (see _ClearVisitedFlagsInBicomp), then do some processing
+ that sets some of the flags then performs some tests.  If the tests
+ are positive, then we can clear all the visited flags in the
+ other bicomps (the processing may have set the visited flags in the
+ one bicomp in a particular way that we want to retain, so we skip
+ the given bicomp).
+ ********************************************************************/
+
+int _ClearVisitedFlagsInOtherBicomps(graphP theGraph, int BicompRoot)
+{
+    int R;
+
+    for (R = gp_GetFirstVirtualVertex(theGraph); gp_VirtualVertexInRange(theGraph, R); R++)
+    {
+        if (R != BicompRoot && gp_VirtualVertexInUse(theGraph, R))
+        {
+            if (_ClearVisitedFlagsInBicomp(theGraph, R) != OK)
+                return NOTOK;
+        }
+    }
+    return OK;
+}
+
+/********************************************************************
+ _ClearVisitedFlagsInUnembeddedEdges()
+ Unembedded edges aren't part of any bicomp yet, but it may be
+ necessary to clear their visited flags.
+ ********************************************************************/
+
+void _ClearVisitedFlagsInUnembeddedEdges(graphP theGraph)
+{
+    int v, e;
+
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+    {
+        e = gp_GetVertexFwdArcList(theGraph, v);
+        while (gp_IsArc(e))
+        {
+            gp_ClearEdgeVisited(theGraph, e);
+            gp_ClearEdgeVisited(theGraph, gp_GetTwinArc(theGraph, e));
+
+            e = gp_GetNextArc(theGraph, e);
+            if (e == gp_GetVertexFwdArcList(theGraph, v))
+                e = NIL;
+        }
+    }
+}
+
+/****************************************************************************
+ _ClearVisitedFlagsOnPath()
+ This method clears the visited flags on the vertices and edges on the path
+ (u, v, ..., w, x) in which all vertices except the endpoints u and x
+ are degree 2.  This method avoids performing more than constant work at the
+ path endpoints u and x, so the total work is on the order of the path length.
+
+ Returns OK on success, NOTOK on internal failure
+ ****************************************************************************/
+
+int _ClearVisitedFlagsOnPath(graphP theGraph, int u, int v, int w, int x)
+{
+    int e, eTwin;
+
+    // We want to exit u from e, but we get eTwin first here in order to avoid
+    // work, in case the degree of u is greater than 2.
+    eTwin = gp_GetNeighborEdgeRecord(theGraph, v, u);
+    if (gp_IsNotArc(eTwin))
+        return NOTOK;
+    e = gp_GetTwinArc(theGraph, eTwin);
+
+    v = u;
+
+    do
+    {
+        // Mark the vertex and the exiting edge
+        gp_ClearVertexVisited(theGraph, v);
+        gp_ClearEdgeVisited(theGraph, e);
+        gp_ClearEdgeVisited(theGraph, eTwin);
+
+        // Get the next vertex
+        v = gp_GetNeighbor(theGraph, e);
+        e = gp_GetNextArcCircular(theGraph, eTwin);
+        eTwin = gp_GetTwinArc(theGraph, e);
+    } while (v != x);
+
+    // Mark the last vertex with 'visited'
+    gp_ClearVertexVisited(theGraph, x);
+
+    return OK;
+}
+
+/****************************************************************************
+ _SetVisitedFlagsOnPath()
+ This method sets the visited flags on the vertices and edges on the path
+ (u, v, ..., w, x) in which all vertices except the endpoints u and x
+ are degree 2.  This method avoids performing more than constant work at the
+ path endpoints u and x, so the total work is on the order of the path length.
+
+ Returns OK on success, NOTOK on internal failure
+ ****************************************************************************/
+
+int _SetVisitedFlagsOnPath(graphP theGraph, int u, int v, int w, int x)
+{
+    int e, eTwin;
+
+    // We want to exit u from e, but we get eTwin first here in order to avoid
+    // work, in case the degree of u is greater than 2.
+    eTwin = gp_GetNeighborEdgeRecord(theGraph, v, u);
+    if (gp_IsNotArc(eTwin))
+        return NOTOK;
+    e = gp_GetTwinArc(theGraph, eTwin);
+
+    v = u;
+
+    do
+    {
+        // Mark the vertex and the exiting edge
+        gp_SetVertexVisited(theGraph, v);
+        gp_SetEdgeVisited(theGraph, e);
+        gp_SetEdgeVisited(theGraph, eTwin);
+
+        // Get the next vertex
+        v = gp_GetNeighbor(theGraph, e);
+        e = gp_GetNextArcCircular(theGraph, eTwin);
+        eTwin = gp_GetTwinArc(theGraph, e);
+    } while (v != x);
+
+    // Mark the last vertex with 'visited'
+    gp_SetVertexVisited(theGraph, x);
+
+    return OK;
+}
+
+/********************************************************************
+ _FillVertexVisitedInfoInBicomp()
+
+ Places the FillValue into the visitedInfo of the non-virtual vertices
+ in the bicomp rooted by BicompRoot.
+
+ This method uses the stack but preserves whatever may have been
+ on it.  In debug mode, it will return NOTOK if the stack overflows.
+ This method pushes at most one integer per vertex in the bicomp.
+
+ Returns OK on success, NOTOK on implementation failure.
+ ********************************************************************/
+
+int _FillVertexVisitedInfoInBicomp(graphP theGraph, int BicompRoot, int FillValue)
+{
+    int v, e;
+    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
+
+    sp_Push(theGraph->theStack, BicompRoot);
+    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
+    {
+        sp_Pop(theGraph->theStack, v);
+
+        if (gp_IsNotVirtualVertex(theGraph, v))
+            gp_SetVertexVisitedInfo(theGraph, v, FillValue);
+
+        e = gp_GetFirstArc(theGraph, v);
+        while (gp_IsArc(e))
+        {
+            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
+                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
+
+            e = gp_GetNextArc(theGraph, e);
+        }
+    }
+    return OK;
+}
+
+/********************************************************************
+ _ClearVertexTypeInBicomp()
+
+ Clears the 'obstruction type' bits for each vertex in the bicomp
+ rooted by BicompRoot.
+
+ This method uses the stack but preserves whatever may have been
+ on it.  In debug mode, it will return NOTOK if the stack overflows.
+ This method pushes at most one integer per vertex in the bicomp.
+
+ Returns OK on success, NOTOK on implementation failure.
+ ********************************************************************/
+
+int _ClearVertexTypeInBicomp(graphP theGraph, int BicompRoot)
+{
+    int V, e;
+    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
+
+    sp_Push(theGraph->theStack, BicompRoot);
+    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
+    {
+        sp_Pop(theGraph->theStack, V);
+        gp_ClearVertexObstructionType(theGraph, V);
+
+        e = gp_GetFirstArc(theGraph, V);
+        while (gp_IsArc(e))
+        {
+            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
+                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
+
+            e = gp_GetNextArc(theGraph, e);
+        }
+    }
+    return OK;
+}
+
+/********************************************************************
+ _ClearGraph()
+ Clears all memory used by the graph, restoring it to the state it
+ was in immediately after gp_New() created it.
+ ********************************************************************/
+
+void _ClearGraph(graphP theGraph)
+{
+    if (theGraph->V != NULL)
+    {
+        free(theGraph->V);
+        theGraph->V = NULL;
+    }
+    if (theGraph->VI != NULL)
+    {
+        free(theGraph->VI);
+        theGraph->VI = NULL;
+    }
+    if (theGraph->E != NULL)
+    {
+        free(theGraph->E);
+        theGraph->E = NULL;
+    }
+
+    theGraph->N = 0;
+    theGraph->NV = 0;
+    theGraph->M = 0;
+    theGraph->arcCapacity = 0;
+    theGraph->internalFlags = 0;
+    theGraph->embedFlags = 0;
+
+    _InitIsolatorContext(theGraph);
+
+    LCFree(&theGraph->BicompRootLists);
+    LCFree(&theGraph->sortedDFSChildLists);
+
+    sp_Free(&theGraph->theStack);
+
+    if (theGraph->extFace != NULL)
+    {
+        free(theGraph->extFace);
+        theGraph->extFace = NULL;
+    }
+
+    sp_Free(&theGraph->edgeHoles);
+
+    gp_FreeExtensions(theGraph);
+}
+
+/********************************************************************
+ gp_Free()
+ Frees G and V, then the graph record.  Then sets your pointer to NULL
+ (so you must pass the address of your pointer).
+ ********************************************************************/
+
+void gp_Free(graphP *pGraph)
+{
+    if (pGraph == NULL)
+        return;
+    if (*pGraph == NULL)
+        return;
+
+    _ClearGraph(*pGraph);
+
+    free(*pGraph);
+    *pGraph = NULL;
+}
+
+/********************************************************************
+ gp_CopyAdjacencyLists()
+ Copies the adjacency lists from the srcGraph to the dstGraph.
+ This method intentionally copies only the adjacency lists of the
+ first N vertices, so the adjacency lists of virtual vertices are
+ excluded (unless the caller temporarily resets the value of N to
+ include NV).
+
+ Returns OK on success, NOTOK on failures, e.g. if the two graphs
+ have different orders N or if the arcCapacity of dstGraph cannot
+ be increased to match that of srcGraph.
+ ********************************************************************/
+int gp_CopyAdjacencyLists(graphP dstGraph, graphP srcGraph)
+{
+    int v, e, EsizeOccupied;
+
+    if (dstGraph == NULL || srcGraph == NULL)
+        return NOTOK;
+
+    if (dstGraph->N != srcGraph->N || dstGraph->N == 0)
+        return NOTOK;
+
+    if (gp_EnsureArcCapacity(dstGraph, srcGraph->arcCapacity) != OK)
+        return NOTOK;
+
+    // Copy the links that hook each owning vertex to its adjacency list
+    for (v = gp_GetFirstVertex(srcGraph); gp_VertexInRange(srcGraph, v); v++)
+    {
+        gp_SetFirstArc(dstGraph, v, gp_GetFirstArc(srcGraph, v));
+        gp_SetLastArc(dstGraph, v, gp_GetLastArc(srcGraph, v));
+    }
+
+    // Copy the adjacency links and neighbor pointers for each arc
+    EsizeOccupied = gp_EdgeInUseIndexBound(srcGraph);
+    for (e = gp_GetFirstEdge(theGraph); e < EsizeOccupied; e++)
+    {
+        gp_SetNeighbor(dstGraph, e, gp_GetNeighbor(srcGraph, e));
+        gp_SetNextArc(dstGraph, e, gp_GetNextArc(srcGraph, e));
+        gp_SetPrevArc(dstGraph, e, gp_GetPrevArc(srcGraph, e));
+    }
+
+    // Tell the dstGraph how many edges it now has and where the edge holes are
+    dstGraph->M = srcGraph->M;
+    sp_Copy(dstGraph->edgeHoles, srcGraph->edgeHoles);
+
+    return OK;
+}
+
+/********************************************************************
+ gp_CopyGraph()
+ Copies the content of the srcGraph into the dstGraph.  The dstGraph
+ must have been previously initialized with the same number of
+ vertices as the srcGraph (e.g. gp_InitGraph(dstGraph, srcGraph->N).
+
+ Returns OK for success, NOTOK for failure.
+ ********************************************************************/
+
+int gp_CopyGraph(graphP dstGraph, graphP srcGraph)
+{
+    int v, e, Esize;
+
+    // Parameter checks
+    if (dstGraph == NULL || srcGraph == NULL)
+    {
+        return NOTOK;
+    }
+
+    // The graphs need to be the same order and initialized
+    if (dstGraph->N != srcGraph->N || dstGraph->N == 0)
+    {
+        return NOTOK;
+    }
+
+    // Ensure dstGraph has the required arc capacity; this expands
+    // dstGraph if needed, but does not contract.  An error is only
+    // returned if the expansion fails.
+    if (gp_EnsureArcCapacity(dstGraph, srcGraph->arcCapacity) != OK)
+    {
+        return NOTOK;
+    }
+
+    // Copy the primary vertices.  Augmentations to vertices created
+    // by extensions are copied below by gp_CopyExtensions()
+    for (v = gp_GetFirstVertex(srcGraph); gp_VertexInRange(srcGraph, v); v++)
+    {
+        gp_CopyVertexRec(dstGraph, v, srcGraph, v);
+        gp_CopyVertexInfo(dstGraph, v, srcGraph, v);
+        gp_SetExtFaceVertex(dstGraph, v, 0, gp_GetExtFaceVertex(srcGraph, v, 0));
+        gp_SetExtFaceVertex(dstGraph, v, 1, gp_GetExtFaceVertex(srcGraph, v, 1));
+    }
+
+    // Copy the virtual vertices.  Augmentations to virtual vertices created
+    // by extensions are copied below by gp_CopyExtensions()
+    for (v = gp_GetFirstVirtualVertex(srcGraph); gp_VirtualVertexInRange(srcGraph, v); v++)
+    {
+        gp_CopyVertexRec(dstGraph, v, srcGraph, v);
+        gp_SetExtFaceVertex(dstGraph, v, 0, gp_GetExtFaceVertex(srcGraph, v, 0));
+        gp_SetExtFaceVertex(dstGraph, v, 1, gp_GetExtFaceVertex(srcGraph, v, 1));
+    }
+
+    // Copy the basic EdgeRec structures.  Augmentations to the edgeRec structure
+    // created by extensions are copied below by gp_CopyExtensions()
+    Esize = gp_EdgeIndexBound(srcGraph);
+    for (e = gp_GetFirstEdge(theGraph); e < Esize; e++)
+        gp_CopyEdgeRec(dstGraph, e, srcGraph, e);
+
+    // Clear the edge records of dstGraph that srcGraph does not have
+    for (; e < gp_EdgeIndexBound(dstGraph); e++)
+        _InitEdgeRec(dstGraph, e);
+
+    // Give the dstGraph the same size and intrinsic properties
+    dstGraph->N = srcGraph->N;
+    dstGraph->NV = srcGraph->NV;
+    dstGraph->M = srcGraph->M;
+    dstGraph->internalFlags = srcGraph->internalFlags;
+    dstGraph->embedFlags = srcGraph->embedFlags;
+
+    dstGraph->IC = srcGraph->IC;
+
+    LCCopy(dstGraph->BicompRootLists, srcGraph->BicompRootLists);
+    LCCopy(dstGraph->sortedDFSChildLists, srcGraph->sortedDFSChildLists);
+    if (sp_Copy(dstGraph->theStack, srcGraph->theStack) != OK ||
+        sp_Copy(dstGraph->edgeHoles, srcGraph->edgeHoles) != OK)
+    {
+        return NOTOK;
+    }
+
+    // Copy the set of extensions, which includes copying the
+    // extension data as well as the function overload tables
+    if (gp_CopyExtensions(dstGraph, srcGraph) != OK)
+        return NOTOK;
+
+    // Copy the graph's function table, which has the pointers to
+    // the most recent extension overloads of each function (or
+    // the original function pointer if a particular function has
+    // not been overloaded).
+    // This must be done after copying the extension because the
+    // first step of copying the extensions is to delete the
+    // dstGraph extensions, which clears its function table.
+    // Therefore, no good to assign the srcGraph functions *before*
+    // copying the extensions because the assignment would be wiped out
+    // This, in turn, means that the DupContext function of an extension
+    // *cannot* depend on any extension function overloads; the extension
+    // must directly invoke extension functions only.
+    dstGraph->functions = srcGraph->functions;
+
+    return OK;
+}
+
+/********************************************************************
+ gp_DupGraph()
+ ********************************************************************/
+
+graphP gp_DupGraph(graphP theGraph)
+{
+    graphP result;
+
+    if ((result = gp_New()) == NULL)
+        return NULL;
+
+    if (gp_InitGraph(result, theGraph->N) != OK ||
+        gp_CopyGraph(result, theGraph) != OK)
+    {
+        gp_Free(&result);
+        return NULL;
+    }
+
+    return result;
+}
+
+/********************************************************************
+ gp_CreateRandomGraph()
+
+ Creates a randomly generated graph.  First a tree is created by
+ connecting each vertex to some successor.  Then a random number of
+ additional random edges are added.  If an edge already exists, then
+ we retry until a non-existent edge is picked.
+
+ This function assumes the caller has already called srand().
+
+ Returns OK on success, NOTOK on failure
+ ********************************************************************/
+
+int gp_CreateRandomGraph(graphP theGraph)
+{
+    int N, M, u, v, m;
+
+    N = theGraph->N;
+
+    /* Generate a random tree; note that this method virtually guarantees
+            that the graph will be renumbered, but it is linear time.
+            Also, we are not generating the DFS tree but rather a tree
+            that simply ensures the resulting random graph is connected. */
+
+    for (v = gp_GetFirstVertex(theGraph) + 1; gp_VertexInRange(theGraph, v); v++)
+    {
+        u = _GetRandomNumber(gp_GetFirstVertex(theGraph), v - 1);
+        if (gp_AddEdge(theGraph, u, 0, v, 0) != OK)
+            return NOTOK;
+    }
+
+    /* Generate a random number of additional edges
+            (actually, leave open a small chance that no
+            additional edges will be added). */
+
+    M = _GetRandomNumber(7 * N / 8, theGraph->arcCapacity / 2);
+
+    if (M > N * (N - 1) / 2)
+        M = N * (N - 1) / 2;
+
+    for (m = N - 1; m < M; m++)
+    {
+        u = _GetRandomNumber(gp_GetFirstVertex(theGraph), gp_GetLastVertex(theGraph) - 1);
+        v = _GetRandomNumber(u + 1, gp_GetLastVertex(theGraph));
+
+        // If the edge (u,v) exists, decrement eIndex to try again
+        if (gp_IsNeighbor(theGraph, u, v))
+            m--;
+
+        // If the edge (u,v) doesn't exist, add it
+        else
+        {
+            if (gp_AddEdge(theGraph, u, 0, v, 0) != OK)
+                return NOTOK;
+        }
+    }
+
+    return OK;
+}
+
+/********************************************************************
+ _GetRandomNumber()
+ This function generates a random number between NMin and NMax
+ inclusive.  It assumes that the caller has called srand().
+ It calls rand(), but before truncating to the proper range,
+ it adds the high bits of the rand() result into the low bits.
+ The result of this is that the randomness appearing in the
+ truncated bits also has an affect on the non-truncated bits.
+ ********************************************************************/
+
+int _GetRandomNumber(int NMin, int NMax)
+{
+    unsigned int N = rand();
+
+    if (NMax < NMin)
+        return NMin;
+
+    N += ((N & 0xFFFF0000) >> 16);
+    N += ((N & 0x0000FF00) >> 8);
+    N &= 0x7FFFFFF;
+    N %= (NMax - NMin + 1);
+    return (int)N + NMin;
+}
+
+/********************************************************************
+ _getUnprocessedChild()
+ Support routine for gp_Create RandomGraphEx(), this function
+ obtains a child of the given vertex in the randomly generated
+ tree that has not yet been processed.  NIL is returned if the
+ given vertex has no unprocessed children
+
+ ********************************************************************/
+
+int _getUnprocessedChild(graphP theGraph, int parent)
+{
+    int e = gp_GetFirstArc(theGraph, parent);
+    int eTwin = gp_GetTwinArc(theGraph, e);
+    int child = gp_GetNeighbor(theGraph, e);
+
+    // The tree edges were added to the beginning of the adjacency list,
+    // and we move processed tree edge records to the end of the list,
+    // so if the immediate next arc (edge record) is not a tree edge
+    // then we return NIL because the vertex has no remaining
+    // unprocessed children
+    if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_NOTDEFINED)
+        return NIL;
+
+    // If the child has already been processed, then all children
+    // have been pushed to the end of the list, and we have just
+    // encountered the first child we processed, so there are no
+    // remaining unprocessed children */
+    if (gp_GetEdgeVisited(theGraph, e))
+        return NIL;
+
+    // We have found an edge leading to an unprocessed child, so
+    // we mark it as processed so that it doesn't get returned
+    // again in future iterations.
+    gp_SetEdgeVisited(theGraph, e);
+    gp_SetEdgeVisited(theGraph, eTwin);
+
+    // Now we move the edge record in the parent vertex to the end
+    // of the adjacency list of that vertex.
+    gp_MoveArcToLast(theGraph, parent, e);
+
+    // Now we move the edge record in the child vertex to the
+    // end of the adjacency list of the child.
+    gp_MoveArcToLast(theGraph, child, eTwin);
+
+    // Now we set the child's parent and return the child.
+    gp_SetVertexParent(theGraph, child, parent);
+
+    return child;
+}
+
+/********************************************************************
+ _hasUnprocessedChild()
+ Support routine for gp_Create RandomGraphEx(), this function
+ obtains a child of the given vertex in the randomly generated
+ tree that has not yet been processed.  False (0) is returned
+ unless the given vertex has an unprocessed child.
+ ********************************************************************/
+
+int _hasUnprocessedChild(graphP theGraph, int parent)
+{
+    int e = gp_GetFirstArc(theGraph, parent);
+
+    if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_NOTDEFINED)
+        return 0;
+
+    if (gp_GetEdgeVisited(theGraph, e))
+        return 0;
+
+    return 1;
+}
+
+/********************************************************************
+ gp_CreateRandomGraphEx()
+ Given a graph structure with a pre-specified number of vertices N,
+ this function creates a graph with the specified number of edges.
+
+ If numEdges <= 3N-6, then the graph generated is planar.  If
+ numEdges is larger, then a maximal planar graph is generated, then
+ (numEdges - 3N + 6) additional random edges are added.
+
+ This function assumes the caller has already called srand().
+ ********************************************************************/
+
+int gp_CreateRandomGraphEx(graphP theGraph, int numEdges)
+{
+    int N, arc, M, root, v, c, p, last, u, e, EsizeOccupied;
+
+    N = theGraph->N;
+
+    if (numEdges > theGraph->arcCapacity / 2)
+        numEdges = theGraph->arcCapacity / 2;
+
+    if (numEdges > (long long)N * (N - 1) / 2)
+        numEdges = (int)((long long)N * (N - 1) / 2);
+
+    /* Generate a random tree. */
+
+    for (v = gp_GetFirstVertex(theGraph) + 1; gp_VertexInRange(theGraph, v); v++)
+    {
+        u = _GetRandomNumber(gp_GetFirstVertex(theGraph), v - 1);
+        if (gp_AddEdge(theGraph, u, 0, v, 0) != OK)
+            return NOTOK;
+
+        else
+        {
+            arc = gp_GetNeighborEdgeRecord(theGraph, u, v);
+            gp_SetEdgeType(theGraph, arc, EDGE_TYPE_RANDOMTREE);
+            gp_SetEdgeType(theGraph, gp_GetTwinArc(theGraph, arc), EDGE_TYPE_RANDOMTREE);
+            gp_ClearEdgeVisited(theGraph, arc);
+            gp_ClearEdgeVisited(theGraph, gp_GetTwinArc(theGraph, arc));
+        }
+    }
+
+    /* Add edges up to the limit or until the graph is maximal planar. */
+
+    M = numEdges <= 3 * N - 6 ? numEdges : 3 * N - 6;
+
+    root = gp_GetFirstVertex(theGraph);
+    v = last = _getUnprocessedChild(theGraph, root);
+
+    while (v != root && theGraph->M < M)
+    {
+        c = _getUnprocessedChild(theGraph, v);
+
+        if (gp_IsVertex(c))
+        {
+            if (last != v)
+            {
+                if (gp_AddEdge(theGraph, last, 1, c, 1) != OK)
+                    return NOTOK;
+            }
+
+            if (gp_AddEdge(theGraph, root, 1, c, 1) != OK)
+                return NOTOK;
+
+            v = last = c;
+        }
+
+        else
+        {
+            p = gp_GetVertexParent(theGraph, v);
+            while (gp_IsVertex(p) && gp_IsNotVertex(c = _getUnprocessedChild(theGraph, p)))
+            {
+                v = p;
+                p = gp_GetVertexParent(theGraph, v);
+                if (gp_IsVertex(p) && p != root)
+                {
+                    if (gp_AddEdge(theGraph, last, 1, p, 1) != OK)
+                        return NOTOK;
+                }
+            }
+
+            if (gp_IsVertex(p))
+            {
+                if (p == root)
+                {
+                    if (gp_AddEdge(theGraph, v, 1, c, 1) != OK)
+                        return NOTOK;
+
+                    if (v != last)
+                    {
+                        if (gp_AddEdge(theGraph, last, 1, c, 1) != OK)
+                            return NOTOK;
+                    }
+                }
+                else
+                {
+                    if (gp_AddEdge(theGraph, last, 1, c, 1) != OK)
+                        return NOTOK;
+                }
+
+                if (p != root)
+                {
+                    if (gp_AddEdge(theGraph, root, 1, c, 1) != OK)
+                        return NOTOK;
+                    last = c;
+                }
+
+                v = c;
+            }
+        }
+    }
+
+    /* Add additional edges if the limit has not yet been reached. */
+
+    while (theGraph->M < numEdges)
+    {
+        u = _GetRandomNumber(gp_GetFirstVertex(theGraph), gp_GetLastVertex(theGraph));
+        v = _GetRandomNumber(gp_GetFirstVertex(theGraph), gp_GetLastVertex(theGraph));
+
+        if (u != v && !gp_IsNeighbor(theGraph, u, v))
+            if (gp_AddEdge(theGraph, u, 0, v, 0) != OK)
+                return NOTOK;
+    }
+
+    /* Clear the edge types back to 'unknown' */
+
+    EsizeOccupied = gp_EdgeInUseIndexBound(theGraph);
+    for (e = 0; e < EsizeOccupied; e++)
+    {
+        gp_ClearEdgeType(theGraph, e);
+        gp_ClearEdgeVisited(theGraph, e);
+    }
+
+    /* Put all DFSParent indicators back to NIL */
+
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+        gp_SetVertexParent(theGraph, v, NIL);
+
+    return OK;
+}
+
+/********************************************************************
+ gp_IsNeighbor()
+
+ Checks whether v is already in u's adjacency list, i.e. does the arc
+ u -> v exist.
+ If there is an edge record for v in u's list, but it is marked INONLY,
+ then it represents the arc v->u but not u->v, so it is ignored.
+
+ Returns TRUE or FALSE.
+ ********************************************************************/
+
+int gp_IsNeighbor(graphP theGraph, int u, int v)
+{
+    int e = gp_GetFirstArc(theGraph, u);
+
+    while (gp_IsArc(e))
+    {
+        if (gp_GetNeighbor(theGraph, e) == v)
+        {
+            if (gp_GetDirection(theGraph, e) != EDGEFLAG_DIRECTION_INONLY)
+                return TRUE;
+        }
+        e = gp_GetNextArc(theGraph, e);
+    }
+    return FALSE;
+}
+
+/********************************************************************
+ gp_GetNeighborEdgeRecord()
+ Searches the adjacency list of u to obtains the edge record for v.
+
+ NOTE: The caller should check whether the edge record is INONLY;
+       This method returns any edge record representing a connection
+       between vertices u and v, so this method can return an
+       edge record even if gp_IsNeighbor(theGraph, u, v) is false (0).
+       To filter out INONLY edge records, use gp_GetDirection() on
+       the edge record returned by this method.
+
+ Returns NIL if there is no edge record indicating v in u's adjacency
+         list, or the edge record location otherwise.
+ ********************************************************************/
+
+int gp_GetNeighborEdgeRecord(graphP theGraph, int u, int v)
+{
+    int e;
+
+    if (gp_IsNotVertex(u) || gp_IsNotVertex(v))
+        return NIL + NOTOK - NOTOK;
+
+    e = gp_GetFirstArc(theGraph, u);
+    while (gp_IsArc(e))
+    {
+        if (gp_GetNeighbor(theGraph, e) == v)
+            return e;
+
+        e = gp_GetNextArc(theGraph, e);
+    }
+    return NIL;
+}
+
+/********************************************************************
+ gp_GetVertexDegree()
+
+ Counts the number of edge records in the adjacency list of a given
+ vertex V.
+
+ Note: For digraphs, this method returns the total degree of the
+       vertex, including outward arcs (undirected and OUTONLY)
+       as well as INONLY arcs.  Other functions are defined to get
+       the in-degree or out-degree of the vertex.
+
+ Note: This function determines the degree by counting.  An extension
+       could cache the degree value of each vertex and update the
+       cached value as edges are added and deleted.
+ ********************************************************************/
+
+int gp_GetVertexDegree(graphP theGraph, int v)
+{
+    int e, degree;
+
+    if (theGraph == NULL || gp_IsNotVertex(v))
+        return 0 + NOTOK - NOTOK;
+
+    degree = 0;
+
+    e = gp_GetFirstArc(theGraph, v);
+    while (gp_IsArc(e))
+    {
+        degree++;
+        e = gp_GetNextArc(theGraph, e);
+    }
+
+    return degree;
+}
+
+/********************************************************************
+ gp_GetVertexInDegree()
+
+ Counts the number of edge records in the adjacency list of a given
+ vertex V that represent arcs from another vertex into V.
+ This includes undirected edges and INONLY arcs, so it only excludes
+ edges records that are marked as OUTONLY arcs.
+
+ Note: This function determines the in-degree by counting.  An extension
+       could cache the in-degree value of each vertex and update the
+       cached value as edges are added and deleted.
+ ********************************************************************/
+
+int gp_GetVertexInDegree(graphP theGraph, int v)
+{
+    int e, degree;
+
+    if (theGraph == NULL || gp_IsNotVertex(v))
+        return 0 + NOTOK - NOTOK;
+
+    degree = 0;
+
+    e = gp_GetFirstArc(theGraph, v);
+    while (gp_IsArc(e))
+    {
+        if (gp_GetDirection(theGraph, e) != EDGEFLAG_DIRECTION_OUTONLY)
+            degree++;
+        e = gp_GetNextArc(theGraph, e);
+    }
+
+    return degree;
+}
+
+/********************************************************************
+ gp_GetVertexOutDegree()
+
+ Counts the number of edge records in the adjacency list of a given
+ vertex V that represent arcs from V to another vertex.
+ This includes undirected edges and OUTONLY arcs, so it only excludes
+ edges records that are marked as INONLY arcs.
+
+ Note: This function determines the out-degree by counting.  An extension
+       could cache the out-degree value of each vertex and update the
+       cached value as edges are added and deleted.
+ ********************************************************************/
+
+int gp_GetVertexOutDegree(graphP theGraph, int v)
+{
+    int e, degree;
+
+    if (theGraph == NULL || gp_IsNotVertex(v))
+        return 0 + NOTOK - NOTOK;
+
+    degree = 0;
+
+    e = gp_GetFirstArc(theGraph, v);
+    while (gp_IsArc(e))
+    {
+        if (gp_GetDirection(theGraph, e) != EDGEFLAG_DIRECTION_INONLY)
+            degree++;
+        e = gp_GetNextArc(theGraph, e);
+    }
+
+    return degree;
+}
+
+/********************************************************************
+ gp_AttachArc()
+
+ This routine adds newArc into v's adjacency list at a position
+ adjacent to the edge record for e, either before or after e,
+ depending on link.  If e is not an arc (e.g. if e is NIL),
+ then link is assumed to indicate whether the new arc is to be
+ placed at the beginning or end of v's adjacency list.
+
+ NOTE: The caller can pass NIL for v if e is not NIL, since the
+       vertex is implied (gp_GetNeighbor(theGraph, eTwin))
+
+ The arc is assumed to already exist in the data structure (i.e.
+ the storage of edges), as only a whole edge (two arcs) can be
+ inserted into or deleted from the data structure.  Hence there is
+ no such thing as gp_InsertArc() or gp_DeleteArc().
+
+ See also gp_DetachArc(), gp_InsertEdge() and gp_DeleteEdge()
+ ********************************************************************/
+
+void gp_AttachArc(graphP theGraph, int v, int e, int link, int newArc)
+{
+    if (gp_IsArc(e))
+    {
+        int e2 = gp_GetAdjacentArc(theGraph, e, link);
+
+        // e's link is newArc, and newArc's 1^link is e
+        gp_SetAdjacentArc(theGraph, e, link, newArc);
+        gp_SetAdjacentArc(theGraph, newArc, 1 ^ link, e);
+
+        // newArcs's link is e2
+        gp_SetAdjacentArc(theGraph, newArc, link, e2);
+
+        // if e2 is an arc, then e2's 1^link is newArc, else v's 1^link is newArc
+        if (gp_IsArc(e2))
+            gp_SetAdjacentArc(theGraph, e2, 1 ^ link, newArc);
+        else
+            gp_SetArc(theGraph, v, 1 ^ link, newArc);
+    }
+    else
+    {
+        int e2 = gp_GetArc(theGraph, v, link);
+
+        // v's link is newArc, and newArc's 1^link is NIL
+        gp_SetArc(theGraph, v, link, newArc);
+        gp_SetAdjacentArc(theGraph, newArc, 1 ^ link, NIL);
+
+        // newArcs's elink is e2
+        gp_SetAdjacentArc(theGraph, newArc, link, e2);
+
+        // if e2 is an arc, then e2's 1^link is newArc, else v's 1^link is newArc
+        if (gp_IsArc(e2))
+            gp_SetAdjacentArc(theGraph, e2, 1 ^ link, newArc);
+        else
+            gp_SetArc(theGraph, v, 1 ^ link, newArc);
+    }
+}
+
+/****************************************************************************
+ gp_DetachArc()
+
+ This routine detaches arc from its adjacency list, but it does not delete
+ it from the data structure (only a whole edge can be deleted).
+
+ Some algorithms must temporarily detach an edge, perform some calculation,
+ and eventually put the edge back. This routine supports that operation.
+ The neighboring adjacency list nodes are cross-linked, but the two link
+ members of the arc are retained, so the arc can be reattached later by
+ invoking _RestoreArc().  A sequence of detached arcs can only be restored
+ in the exact opposite order of their detachment.  Thus, algorithms do not
+ directly use this method to implement the temporary detach/restore method.
+ Instead, gp_HideEdge() and gp_RestoreEdge are used, and algorithms push
+ edge hidden edge onto the stack.  One example of this stack usage is
+ provided by detaching edges with gp_ContractEdge() or gp_IdentifyVertices(),
+ and reattaching with gp_RestoreIdentifications(), which unwinds the stack
+ by invoking gp_RestoreVertex().
+ ****************************************************************************/
+
+void gp_DetachArc(graphP theGraph, int arc)
+{
+    int nextArc = gp_GetNextArc(theGraph, arc),
+        prevArc = gp_GetPrevArc(theGraph, arc);
+
+    if (gp_IsArc(nextArc))
+        gp_SetPrevArc(theGraph, nextArc, prevArc);
+    else
+        gp_SetLastArc(theGraph, gp_GetNeighbor(theGraph, gp_GetTwinArc(theGraph, arc)), prevArc);
+
+    if (gp_IsArc(prevArc))
+        gp_SetNextArc(theGraph, prevArc, nextArc);
+    else
+        gp_SetFirstArc(theGraph, gp_GetNeighbor(theGraph, gp_GetTwinArc(theGraph, arc)), nextArc);
+}
+
+/********************************************************************
+ gp_AddEdge()
+ Adds the undirected edge (u,v) to the graph by placing edge records
+ representing u into v's circular edge record list and v into u's
+ circular edge record list.
+
+ upos receives the location in G where the u record in v's list will be
+        placed, and vpos is the location in G of the v record we placed in
+ u's list.  These are used to initialize the short circuit links.
+
+ ulink (0|1) indicates whether the edge record to v in u's list should
+        become adjacent to u by its 0 or 1 link, i.e. u[ulink] == vpos.
+ vlink (0|1) indicates whether the edge record to u in v's list should
+        become adjacent to v by its 0 or 1 link, i.e. v[vlink] == upos.
+
+ ********************************************************************/
+
+int gp_AddEdge(graphP theGraph, int u, int ulink, int v, int vlink)
+{
+    int upos, vpos;
+
+    if (theGraph == NULL || u < gp_GetFirstVertex(theGraph) || v < gp_GetFirstVertex(theGraph) ||
+        !gp_VirtualVertexInRange(theGraph, u) || !gp_VirtualVertexInRange(theGraph, v))
+        return NOTOK;
+
+    /* We enforce the edge limit */
+
+    if (theGraph->M >= theGraph->arcCapacity / 2)
+        return NONEMBEDDABLE;
+
+    if (sp_NonEmpty(theGraph->edgeHoles))
+    {
+        sp_Pop(theGraph->edgeHoles, vpos);
+    }
+    else
+        vpos = gp_EdgeInUseIndexBound(theGraph);
+
+    upos = gp_GetTwinArc(theGraph, vpos);
+
+    gp_SetNeighbor(theGraph, upos, v);
+    gp_AttachArc(theGraph, u, NIL, ulink, upos);
+    gp_SetNeighbor(theGraph, vpos, u);
+    gp_AttachArc(theGraph, v, NIL, vlink, vpos);
+
+    theGraph->M++;
+    return OK;
+}
+
+/********************************************************************
+ gp_DynamicAddEdge()
+ Refer to documentation for gp_AddEdge for parameter description.
+
+ Tries to call gp_AddEdge; if NONEMBEDDABLE, doubles the arc
+ capacity (up to a max of (N * (N-1))) using gp_EnsureArcCapacity,
+ then retries gp_AddEdge.
+ ********************************************************************/
+int gp_DynamicAddEdge(graphP theGraph, int u, int ulink, int v, int vlink)
+{
+    int Result = OK;
+
+    if (theGraph == NULL || u < gp_GetFirstVertex(theGraph) || v < gp_GetFirstVertex(theGraph) ||
+        !gp_VirtualVertexInRange(theGraph, u) || !gp_VirtualVertexInRange(theGraph, v))
+        return NOTOK;
+
+    Result = gp_AddEdge(theGraph, u, ulink, v, vlink);
+
+    if (Result == NONEMBEDDABLE)
+    {
+        int candidateArcCapacity = gp_GetArcCapacity(theGraph) * 2;
+        int N = theGraph->N;
+        int newArcCapacity = (candidateArcCapacity / N >= N - 1) ? (N * (N - 1)) : candidateArcCapacity;
+        Result = gp_EnsureArcCapacity(theGraph, newArcCapacity);
+
+        if (Result != OK)
+            return Result;
+
+        Result = gp_AddEdge(theGraph, u, ulink, v, vlink);
+    }
+
+    return Result;
+}
+
+/********************************************************************
+ gp_InsertEdge()
+
+ This function adds the edge (u, v) such that the edge record added
+ to the adjacency list of u is adjacent to e_u and the edge record
+ added to the adjacency list of v is adjacent to e_v.
+ The direction of adjacency is given by e_ulink for e_u and e_vlink
+ for e_v. Specifically, the new edge will be comprised of two arcs,
+ n_u and n_v.  In u's (v's) adjacency list, n_u (n_v) will be added
+ so that it is indicated by e_u's (e_v's) e_ulink (e_vlink).
+ If e_u (or e_v) is not an arc, then e_ulink (e_vlink) indicates
+ whether to prepend or append to the adjacency list for u (v).
+ ********************************************************************/
+
+int gp_InsertEdge(graphP theGraph, int u, int e_u, int e_ulink,
+                  int v, int e_v, int e_vlink)
+{
+    int vertMax = gp_GetLastVirtualVertex(theGraph),
+        edgeMax = gp_EdgeInUseIndexBound(theGraph) - 1,
+        upos, vpos;
+
+    if (theGraph == NULL || u < gp_GetFirstVertex(theGraph) || v < gp_GetFirstVertex(theGraph) ||
+        u > vertMax || v > vertMax ||
+        e_u > edgeMax || (e_u < gp_GetFirstEdge(theGraph) && gp_IsArc(e_u)) ||
+        e_v > edgeMax || (e_v < gp_GetFirstEdge(theGraph) && gp_IsArc(e_v)) ||
+        e_ulink < 0 || e_ulink > 1 || e_vlink < 0 || e_vlink > 1)
+        return NOTOK;
+
+    if (theGraph->M >= theGraph->arcCapacity / 2)
+        return NONEMBEDDABLE;
+
+    if (sp_NonEmpty(theGraph->edgeHoles))
+    {
+        sp_Pop(theGraph->edgeHoles, vpos);
+    }
+    else
+        vpos = gp_EdgeInUseIndexBound(theGraph);
+
+    upos = gp_GetTwinArc(theGraph, vpos);
+
+    gp_SetNeighbor(theGraph, upos, v);
+    gp_AttachArc(theGraph, u, e_u, e_ulink, upos);
+
+    gp_SetNeighbor(theGraph, vpos, u);
+    gp_AttachArc(theGraph, v, e_v, e_vlink, vpos);
+
+    theGraph->M++;
+
+    return OK;
+}
+
+/****************************************************************************
+ gp_DeleteEdge()
+
+ This function deletes the given edge record e and its twin, reducing the
+ number of edges M in the graph.
+ Before the e^th record is deleted, its 'nextLink' adjacency list neighbor
+ is collected as the return result.  This is useful when iterating through
+ an edge list and making deletions because the nextLink arc is the 'next'
+ arc in the iteration, but it is hard to obtain *after* deleting e.
+ ****************************************************************************/
+
+int gp_DeleteEdge(graphP theGraph, int e, int nextLink)
+{
+    // Calculate the nextArc after e so that, when e is deleted, the return result
+    // informs a calling loop of the next edge to be processed.
+    int nextArc = gp_GetAdjacentArc(theGraph, e, nextLink);
+
+    // Delete the edge records e and eTwin from their adjacency lists.
+    gp_DetachArc(theGraph, e);
+    gp_DetachArc(theGraph, gp_GetTwinArc(theGraph, e));
+
+    // Clear the two edge records
+    // (the bit twiddle (e & ~1) chooses the lesser of e and its twin arc)
+#if NIL == 0
+    memset(theGraph->E + (e & ~1), NIL_CHAR, sizeof(edgeRec) << 1);
+#else
+    _InitEdgeRec(theGraph, e);
+    _InitEdgeRec(theGraph, gp_GetTwinArc(theGraph, e));
+#endif
+
+    // Now we reduce the number of edges in the data structure
+    theGraph->M--;
+
+    // If records e and eTwin were not the last in the edge record array,
+    // then record a new hole in the edge array. */
+    if (e < gp_EdgeInUseIndexBound(theGraph))
+    {
+        sp_Push(theGraph->edgeHoles, e);
+    }
+
+    // Return the previously calculated successor of e.
+    return nextArc;
+}
+
+/********************************************************************
+ _RestoreArc()
+ This routine reinserts an arc into the edge list from which it
+ was previously removed by gp_DetachArc().
+
+ The assumed processing model is that arcs will be restored in reverse
+ of the order in which they were hidden, i.e. it is assumed that the
+ hidden arcs will be pushed on a stack and the arcs will be popped
+ from the stack for restoration.
+ ********************************************************************/
+
+void _RestoreArc(graphP theGraph, int arc)
+{
+    int nextArc = gp_GetNextArc(theGraph, arc),
+        prevArc = gp_GetPrevArc(theGraph, arc);
+
+    if (gp_IsArc(nextArc))
+        gp_SetPrevArc(theGraph, nextArc, arc);
+    else
+        gp_SetLastArc(theGraph, gp_GetNeighbor(theGraph, gp_GetTwinArc(theGraph, arc)), arc);
+
+    if (gp_IsArc(prevArc))
+        gp_SetNextArc(theGraph, prevArc, arc);
+    else
+        gp_SetFirstArc(theGraph, gp_GetNeighbor(theGraph, gp_GetTwinArc(theGraph, arc)), arc);
+}
+
+/********************************************************************
+ gp_HideEdge()
+ This routine removes the two arcs of an edge from the adjacency lists
+ of its endpoint vertices, but does not delete them from the storage
+ data structure.
+
+ Many algorithms must temporarily remove an edge, perform some
+ calculation, and eventually put the edge back. This routine supports
+ that operation.
+
+ For each arc, the neighboring adjacency list nodes are cross-linked,
+ but the links in the arc are retained because they indicate the
+ neighbor arcs to which the arc can be reattached by gp_RestoreEdge().
+ ********************************************************************/
+
+void gp_HideEdge(graphP theGraph, int e)
+{
+    theGraph->functions.fpHideEdge(theGraph, e);
+}
+
+void _HideEdge(graphP theGraph, int e)
+{
+    gp_DetachArc(theGraph, e);
+    gp_DetachArc(theGraph, gp_GetTwinArc(theGraph, e));
+}
+
+/********************************************************************
+ gp_RestoreEdge()
+ This routine reinserts two two arcs of an edge into the adjacency
+ lists of the edge's endpoints, the arcs having been previously
+ removed by gp_HideEdge().
+
+ The assumed processing model is that edges will be restored in
+ reverse of the order in which they were hidden, i.e. it is assumed
+ that the hidden edges will be pushed on a stack and the edges will
+ be popped from the stack for restoration.
+
+ Note: Since both arcs of an edge are restored, only one arc need
+        be pushed on the stack for restoration.  This routine
+        restores the two arcs in the opposite order from the order
+        in which they are hidden by gp_HideEdge().
+ ********************************************************************/
+
+void gp_RestoreEdge(graphP theGraph, int e)
+{
+    theGraph->functions.fpRestoreEdge(theGraph, e);
+}
+
+void _RestoreEdge(graphP theGraph, int e)
+{
+    _RestoreArc(theGraph, gp_GetTwinArc(theGraph, e));
+    _RestoreArc(theGraph, e);
+}
+
+/********************************************************************
+ _HideInternalEdges()
+ Pushes onto the graph's stack and hides all arc nodes of the vertex
+ except the first and last arcs in the adjacency list of the vertex.
+ This method is typically called on a vertex that is on the external
+ face of a biconnected component, because the first and last arcs are
+ the ones that attach the vertex to the external face cycle, and any
+ other arcs in the adjacency list are inside that cycle.
+
+ This method uses the stack. The caller is expected to clear the stack
+ or save the stack size before invocation, since the stack size is
+ needed to _RestoreInternalEdges().
+ ********************************************************************/
+
+int _HideInternalEdges(graphP theGraph, int vertex)
+{
+    int e = gp_GetFirstArc(theGraph, vertex);
+
+    // If the vertex adjacency list is empty or if it contains
+    // only one edge, then there are no *internal* edges to hide
+    if (e == gp_GetLastArc(theGraph, vertex))
+        return OK;
+
+    // Start with the first internal edge
+    e = gp_GetNextArc(theGraph, e);
+
+    // Cycle through all the edges, pushing each except stop
+    // before pushing the last edge, which is not internal
+    while (e != gp_GetLastArc(theGraph, vertex))
+    {
+        sp_Push(theGraph->theStack, e);
+        gp_HideEdge(theGraph, e);
+        e = gp_GetNextArc(theGraph, e);
+    }
+
+    return OK;
+}
+
+/********************************************************************
+ _RestoreInternalEdges()
+ Reverses the effects of _HideInternalEdges()
+ ********************************************************************/
+
+int _RestoreInternalEdges(graphP theGraph, int stackBottom)
+{
+    return _RestoreHiddenEdges(theGraph, stackBottom);
+}
+
+/********************************************************************
+ _RestoreHiddenEdges()
+
+ Each entry on the stack, down to stackBottom, is assumed to be an
+ edge record (arc) pushed in concert with invoking gp_HideEdge().
+ Each edge is restored using gp_RestoreEdge() in exact reverse of the
+ hiding order.  The stack is reduced in size to stackBottom.
+
+ Returns OK on success, NOTOK on internal failure.
+ ********************************************************************/
+
+int _RestoreHiddenEdges(graphP theGraph, int stackBottom)
+{
+    int e;
+
+    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
+    {
+        sp_Pop(theGraph->theStack, e);
+        if (gp_IsNotArc(e))
+            return NOTOK;
+        gp_RestoreEdge(theGraph, e);
+    }
+
+    return OK;
+}
+
+/********************************************************************
+ gp_HideVertex()
+
+ Pushes onto the graph's stack and hides all arc nodes of the vertex.
+ Additional integers are then pushed so that the result is reversible
+ by gp_RestoreVertex().  See that method for details on the expected
+ stack segment.
+
+ Returns OK for success, NOTOK for internal failure.
+ ********************************************************************/
+
+int gp_HideVertex(graphP theGraph, int vertex)
+{
+    if (gp_IsNotVertex(vertex))
+        return NOTOK;
+
+    return theGraph->functions.fpHideVertex(theGraph, vertex);
+}
+
+int _HideVertex(graphP theGraph, int vertex)
+{
+    int hiddenEdgeStackBottom = sp_GetCurrentSize(theGraph->theStack);
+    int e = gp_GetFirstArc(theGraph, vertex);
+
+    // Cycle through all the edges, pushing and hiding each
+    while (gp_IsArc(e))
+    {
+        sp_Push(theGraph->theStack, e);
+        gp_HideEdge(theGraph, e);
+        e = gp_GetNextArc(theGraph, e);
+    }
+
+    // Push the additional integers needed by gp_RestoreVertex()
+    sp_Push(theGraph->theStack, hiddenEdgeStackBottom);
+    sp_Push(theGraph->theStack, NIL);
+    sp_Push(theGraph->theStack, NIL);
+    sp_Push(theGraph->theStack, NIL);
+    sp_Push(theGraph->theStack, NIL);
+    sp_Push(theGraph->theStack, NIL);
+    sp_Push(theGraph->theStack, vertex);
+
+    return OK;
+}
+
+/********************************************************************
+ gp_ContractEdge()
+
+ Contracts the edge e=(u,v).  This hides the edge (both e and its
+ twin arc), and it also identifies vertex v with u.
+ See gp_IdentifyVertices() for further details.
+
+ Returns OK for success, NOTOK for internal failure.
+ ********************************************************************/
+
+int gp_ContractEdge(graphP theGraph, int e)
+{
+    if (gp_IsNotArc(e))
+        return NOTOK;
+
+    return theGraph->functions.fpContractEdge(theGraph, e);
+}
+
+int _ContractEdge(graphP theGraph, int e)
+{
+    int eBefore, u, v, hiddenEdgeStackBottom;
+
+    if (gp_IsNotArc(e))
+        return NOTOK;
+
+    u = gp_GetNeighbor(theGraph, gp_GetTwinArc(theGraph, e));
+    v = gp_GetNeighbor(theGraph, e);
+
+    hiddenEdgeStackBottom = sp_GetCurrentSize(theGraph->theStack);
+
+    eBefore = gp_GetNextArc(theGraph, e);
+    sp_Push(theGraph->theStack, e);
+    gp_HideEdge(theGraph, e);
+
+    if (gp_IdentifyVertices(theGraph, u, v, eBefore) != OK)
+        return NOTOK;
+
+    // The vertex identification pushes K hidden edges, then an integer
+    // indicating where the top of stack was before those edges were hidden,
+    // then six more integers to indicate edges that were moved from v to u.
+    // That "hidden edges stackBottom" integer must indicate where the top of
+    // stack was before e was pushed, so that gp_RestoreVertex() restores e too.
+    sp_Set(theGraph->theStack, sp_GetCurrentSize(theGraph->theStack) - 7, hiddenEdgeStackBottom);
+
+    return OK;
+}
+
+/********************************************************************
+ gp_IdentifyVertices()
+
+ Identifies vertex v with vertex u by transferring all adjacencies
+ of v to u.  Any duplicate edges are removed as described below.
+ The non-duplicate edges of v are added to the adjacency list of u
+ without disturbing their relative order, and they are added before
+ the edge record eBefore in u's list. If eBefore is NIL, then the
+ edges are simply appended to u's list.
+
+ If u and v are adjacent, then gp_HideEdge() is invoked to remove
+ the edge e=(u,v). Then, the edges of v that indicate neighbors of
+ u are also hidden.  This is done by setting the visited flags of
+ u's neighbors, then traversing the adjacency list of v.  For each
+ visited neighbor of v, the edge is hidden because it would duplicate
+ an adjacency already expressed in u's list. Finally, the remaining
+ edges of v are moved to u's list, and each twin arc is adjusted
+ to indicate u as a neighbor rather than v.
+
+ This routine assumes that the visited flags are clear beforehand,
+ and visited flag settings made herein are cleared before returning.
+
+ The following are pushed, in order, onto the graph's built-in stack:
+ 1) an integer for each hidden edge
+ 2) the stack size before any hidden edges were pushed
+ 3) six integers that indicate u, v and the edges moved from v to u
+
+ An algorithm that identifies a series of vertices, either through
+ directly calling this method or via gp_ContractEdge(), can unwind
+ the identifications using gp_RestoreIdentifications(), which
+ invokes gp_RestoreVertex() repeatedly.
+
+ Returns OK on success, NOTOK on internal failure
+ ********************************************************************/
+
+int gp_IdentifyVertices(graphP theGraph, int u, int v, int eBefore)
+{
+    return theGraph->functions.fpIdentifyVertices(theGraph, u, v, eBefore);
+}
+
+int _IdentifyVertices(graphP theGraph, int u, int v, int eBefore)
+{
+    int e = gp_GetNeighborEdgeRecord(theGraph, u, v);
+    int hiddenEdgeStackBottom, eBeforePred;
+
+    // If the vertices are adjacent, then the identification is
+    // essentially an edge contraction.
+    if (gp_IsArc(e))
+    {
+        // The edge contraction operation pushes one hidden edge, then
+        // recursively calls this method, then makes the stack segment
+        // indicate the hidden edge, too.
+        return gp_ContractEdge(theGraph, e);
+    }
+
+    // Now, u and v are not adjacent. Before we do any edge hiding or
+    // moving, we record the current stack size, as this is the
+    // stackBottom for the edges that will be hidden next.
+    hiddenEdgeStackBottom = sp_GetCurrentSize(theGraph->theStack);
+
+    // Mark as visited all neighbors of u
+    e = gp_GetFirstArc(theGraph, u);
+    while (gp_IsArc(e))
+    {
+        if (gp_GetVertexVisited(theGraph, gp_GetNeighbor(theGraph, e)))
+            return NOTOK;
+
+        gp_SetVertexVisited(theGraph, gp_GetNeighbor(theGraph, e));
+        e = gp_GetNextArc(theGraph, e);
+    }
+
+    // For each edge record of v, if the neighbor is visited, then
+    // push and hide the edge.
+    e = gp_GetFirstArc(theGraph, v);
+    while (gp_IsArc(e))
+    {
+        if (gp_GetVertexVisited(theGraph, gp_GetNeighbor(theGraph, e)))
+        {
+            sp_Push(theGraph->theStack, e);
+            gp_HideEdge(theGraph, e);
+        }
+        e = gp_GetNextArc(theGraph, e);
+    }
+
+    // Mark as unvisited all neighbors of u
+    e = gp_GetFirstArc(theGraph, u);
+    while (gp_IsArc(e))
+    {
+        gp_ClearVertexVisited(theGraph, gp_GetNeighbor(theGraph, e));
+        e = gp_GetNextArc(theGraph, e);
+    }
+
+    // Push the hiddenEdgeStackBottom as a record of how many hidden
+    // edges were pushed (also, see above for Contract Edge adjustment)
+    sp_Push(theGraph->theStack, hiddenEdgeStackBottom);
+
+    // Moving v's adjacency list to u is aided by knowing the predecessor
+    // of u's eBefore (the edge record in u's list before which the
+    // edge records of v will be added).
+    eBeforePred = gp_IsArc(eBefore)
+                      ? gp_GetPrevArc(theGraph, eBefore)
+                      : gp_GetLastArc(theGraph, u);
+
+    // Turns out we only need to record six integers related to the edges
+    // being moved in order to easily restore them later.
+    sp_Push(theGraph->theStack, eBefore);
+    sp_Push(theGraph->theStack, gp_GetLastArc(theGraph, v));
+    sp_Push(theGraph->theStack, gp_GetFirstArc(theGraph, v));
+    sp_Push(theGraph->theStack, eBeforePred);
+    sp_Push(theGraph->theStack, u);
+    sp_Push(theGraph->theStack, v);
+
+    // For the remaining edge records of v, reassign the 'v' member
+    //    of each twin arc to indicate u rather than v.
+    e = gp_GetFirstArc(theGraph, v);
+    while (gp_IsArc(e))
+    {
+        gp_SetNeighbor(theGraph, gp_GetTwinArc(theGraph, e), u);
+        e = gp_GetNextArc(theGraph, e);
+    }
+
+    // If v has any edges left after hiding edges, indicating common neighbors with u, ...
+    if (gp_IsArc(gp_GetFirstArc(theGraph, v)))
+    {
+        // Then perform the list union of v into u between eBeforePred and eBefore
+        if (gp_IsArc(eBeforePred))
+        {
+            if (gp_IsArc(gp_GetFirstArc(theGraph, v)))
+            {
+                gp_SetNextArc(theGraph, eBeforePred, gp_GetFirstArc(theGraph, v));
+                gp_SetPrevArc(theGraph, gp_GetFirstArc(theGraph, v), eBeforePred);
+            }
+        }
+        else
+        {
+            gp_SetFirstArc(theGraph, u, gp_GetFirstArc(theGraph, v));
+        }
+
+        if (gp_IsArc(eBefore))
+        {
+            if (gp_IsArc(gp_GetLastArc(theGraph, v)))
+            {
+                gp_SetNextArc(theGraph, gp_GetLastArc(theGraph, v), eBefore);
+                gp_SetPrevArc(theGraph, eBefore, gp_GetLastArc(theGraph, v));
+            }
+        }
+        else
+        {
+            gp_SetLastArc(theGraph, u, gp_GetLastArc(theGraph, v));
+        }
+
+        gp_SetFirstArc(theGraph, v, NIL);
+        gp_SetLastArc(theGraph, v, NIL);
+    }
+
+    return OK;
+}
+
+/********************************************************************
+ gp_RestoreVertex()
+
+ This method assumes the built-in graph stack contents are the result
+ of vertex hide, vertex identify and edge contract operations.
+ This content consists of segments of integers, each segment
+ corresponding to the removal of a vertex during an edge contraction
+ or vertex identification in which a vertex v was merged into a
+ vertex u.  The segment contains two blocks of integers.
+ The first block contains information about u, v, the edge records
+ in v's adjacency list that were added to u, and where in u's
+ adjacency list they were added.  The second block of integers
+ contains a list of edges incident to v that were hidden from the
+ graph because they were incident to neighbors of v that were also
+ neighbors of u (so they would have produced duplicate edges had
+ they been left in v's adjacency list when it was merged with u's
+ adjacency list).
+
+ This method pops the first block of the segment off the stack and
+ uses the information to help remove v's adjacency list from u and
+ restore it into v.  Then, the second block is removed from the
+ stack, and each indicated edge is restored from the hidden state.
+
+ It is anticipated that this method will be overloaded by extension
+ algorithms to perform some processing as each vertex is restored.
+ Before restoration, the topmost segment has the following structure:
+
+ ... FHE ... LHE HESB e_u_succ e_v_last e_v_first e_u_pred u v
+      ^------------|
+
+ FHE = First hidden edge
+ LHE = Last hidden edge
+ HESB = Hidden edge stack bottom
+ e_u_succ, e_u_pred = The edges of u between which the edges of v
+                      were inserted. NIL can appear if the edges of v
+                      were added to the beginning or end of u's list
+ e_v_first, e_v_last = The first and last edges of v's list, once
+                       the hidden edges were removed
+
+ Returns OK for success, NOTOK for internal failure.
+ ********************************************************************/
+
+int gp_RestoreVertex(graphP theGraph)
+{
+    return theGraph->functions.fpRestoreVertex(theGraph);
+}
+
+int _RestoreVertex(graphP theGraph)
+{
+    int u, v, e_u_succ, e_u_pred, e_v_first, e_v_last, HESB, e;
+
+    if (sp_GetCurrentSize(theGraph->theStack) < 7)
+        return NOTOK;
+
+    sp_Pop(theGraph->theStack, v);
+    sp_Pop(theGraph->theStack, u);
+    sp_Pop(theGraph->theStack, e_u_pred);
+    sp_Pop(theGraph->theStack, e_v_first);
+    sp_Pop(theGraph->theStack, e_v_last);
+    sp_Pop(theGraph->theStack, e_u_succ);
+
+    // If u is not NIL, then vertex v was identified with u.  Otherwise, v was
+    // simply hidden, so we skip to restoring the hidden edges.
+    if (gp_IsVertex(u))
+    {
+        // Remove v's adjacency list from u, including accounting for degree 0 case
+        if (gp_IsArc(e_u_pred))
+        {
+            gp_SetNextArc(theGraph, e_u_pred, e_u_succ);
+            // If the successor edge exists, link it to the predecessor,
+            // otherwise the predecessor is the new last arc
+            if (gp_IsArc(e_u_succ))
+                gp_SetPrevArc(theGraph, e_u_succ, e_u_pred);
+            else
+                gp_SetLastArc(theGraph, u, e_u_pred);
+        }
+        else if (gp_IsArc(e_u_succ))
+        {
+            // The successor arc exists, but not the predecessor,
+            // so the successor is the new first arc
+            gp_SetPrevArc(theGraph, e_u_succ, NIL);
+            gp_SetFirstArc(theGraph, u, e_u_succ);
+        }
+        else
+        {
+            // Just in case u was degree zero
+            gp_SetFirstArc(theGraph, u, NIL);
+            gp_SetLastArc(theGraph, u, NIL);
+        }
+
+        // Place v's adjacency list into v, including accounting for degree 0 case
+        gp_SetFirstArc(theGraph, v, e_v_first);
+        gp_SetLastArc(theGraph, v, e_v_last);
+        if (gp_IsArc(e_v_first))
+            gp_SetPrevArc(theGraph, e_v_first, NIL);
+        if (gp_IsArc(e_v_last))
+            gp_SetNextArc(theGraph, e_v_last, NIL);
+
+        // For each edge record restored to v's adjacency list, reassign the 'v' member
+        //    of each twin arc to indicate v rather than u.
+        e = e_v_first;
+        while (gp_IsArc(e))
+        {
+            gp_SetNeighbor(theGraph, gp_GetTwinArc(theGraph, e), v);
+            e = (e == e_v_last ? NIL : gp_GetNextArc(theGraph, e));
+        }
+    }
+
+    // Restore the hidden edges of v, if any
+    sp_Pop(theGraph->theStack, HESB);
+    return _RestoreHiddenEdges(theGraph, HESB);
+}
+
+/********************************************************************
+ gp_RestoreVertices()
+
+ This method assumes the built-in graph stack has content consistent
+ with numerous vertex identification or edge contraction operations.
+ This method unwinds the stack, moving edges back to their original
+ vertex owners and restoring hidden edges.
+ This method is a simple iterator that invokes gp_RestoreVertex()
+ until the stack is empty, so extension algorithms are more likely
+ to overload gp_RestoreVertex().
+
+ Returns OK for success, NOTOK for internal failure.
+ ********************************************************************/
+
+int gp_RestoreVertices(graphP theGraph)
+{
+    while (sp_NonEmpty(theGraph->theStack))
+    {
+        if (gp_RestoreVertex(theGraph) != OK)
+            return NOTOK;
+    }
+
+    return OK;
+}
+
+/****************************************************************************
+ _ComputeArcType()
+ This is just a little helper function that automates a sequence of decisions
+ that has to be made a number of times.
+ An edge record is being added to the adjacency list of a; it indicates that
+ b is a neighbor.  The edgeType can be either 'tree' (EDGE_TYPE_PARENT or
+ EDGE_TYPE_CHILD) or 'cycle' (EDGE_TYPE_BACK or EDGE_TYPE_FORWARD).
+ If a or b is a root copy, we translate to the non-virtual counterpart,
+ then wedetermine which has the lesser DFI.  If a has the lower DFI then the
+ edge record is a tree edge to a child (EDGE_TYPE_CHILD) if edgeType indicates
+ a tree edge.  If edgeType indicates a cycle edge, then it is a forward cycle
+ edge (EDGE_TYPE_FORWARD) to a descendant.
+ Symmetric conditions define the types for a > b.
+ ****************************************************************************/
+
+int _ComputeArcType(graphP theGraph, int a, int b, int edgeType)
+{
+    a = gp_IsVirtualVertex(theGraph, a) ? gp_GetPrimaryVertexFromRoot(theGraph, a) : a;
+    b = gp_IsVirtualVertex(theGraph, b) ? gp_GetPrimaryVertexFromRoot(theGraph, b) : b;
+
+    if (a < b)
+        return edgeType == EDGE_TYPE_PARENT || edgeType == EDGE_TYPE_CHILD ? EDGE_TYPE_CHILD : EDGE_TYPE_FORWARD;
+
+    return edgeType == EDGE_TYPE_PARENT || edgeType == EDGE_TYPE_CHILD ? EDGE_TYPE_PARENT : EDGE_TYPE_BACK;
+}
+
+/****************************************************************************
+ _SetEdgeType()
+ When we are restoring an edge, we must restore its type (tree edge or cycle edge).
+ We can deduce what the type was based on other information in the graph. Each
+ arc of the edge gets the appropriate type setting (parent/child or back/forward).
+ This method runs in constant time plus the degree of vertex u, or constant
+ time if u is known to have a degree bound by a constant.
+ ****************************************************************************/
+
+int _SetEdgeType(graphP theGraph, int u, int v)
+{
+    int e, eTwin, u_orig, v_orig;
+
+    // If u or v is a virtual vertex (a root copy), then get the non-virtual counterpart.
+    u_orig = gp_IsVirtualVertex(theGraph, u) ? (gp_GetPrimaryVertexFromRoot(theGraph, u)) : u;
+    v_orig = gp_IsVirtualVertex(theGraph, v) ? (gp_GetPrimaryVertexFromRoot(theGraph, v)) : v;
+
+    // Get the edge for which we will set the type
+
+    e = gp_GetNeighborEdgeRecord(theGraph, u, v);
+    eTwin = gp_GetTwinArc(theGraph, e);
+
+    // If u_orig is the parent of v_orig, or vice versa, then the edge is a tree edge
+
+    if (gp_GetVertexParent(theGraph, v_orig) == u_orig ||
+        gp_GetVertexParent(theGraph, u_orig) == v_orig)
+    {
+        if (u_orig > v_orig)
+        {
+            gp_ResetEdgeType(theGraph, e, EDGE_TYPE_PARENT);
+            gp_ResetEdgeType(theGraph, eTwin, EDGE_TYPE_CHILD);
+        }
+        else
+        {
+            gp_ResetEdgeType(theGraph, eTwin, EDGE_TYPE_PARENT);
+            gp_ResetEdgeType(theGraph, e, EDGE_TYPE_CHILD);
+        }
+    }
+
+    // Otherwise it is a back edge
+
+    else
+    {
+        if (u_orig > v_orig)
+        {
+            gp_ResetEdgeType(theGraph, e, EDGE_TYPE_BACK);
+            gp_ResetEdgeType(theGraph, eTwin, EDGE_TYPE_FORWARD);
+        }
+        else
+        {
+            gp_ResetEdgeType(theGraph, eTwin, EDGE_TYPE_BACK);
+            gp_ResetEdgeType(theGraph, e, EDGE_TYPE_FORWARD);
+        }
+    }
+
+    return OK;
+}
+
+/********************************************************************
+ _DeleteUnmarkedEdgesInBicomp()
+
+ This function deletes from a given biconnected component all edges
+ whose visited member is zero.
+
+ The stack is used but preserved. In debug mode, NOTOK can result if
+ there is a stack overflow. This method pushes at most one integer
+ per vertex in the bicomp.
+
+ Returns OK on success, NOTOK on implementation failure
+ ********************************************************************/
+
+int _DeleteUnmarkedEdgesInBicomp(graphP theGraph, int BicompRoot)
+{
+    int V, e;
+    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
+
+    sp_Push(theGraph->theStack, BicompRoot);
+    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
+    {
+        sp_Pop(theGraph->theStack, V);
+
+        e = gp_GetFirstArc(theGraph, V);
+        while (gp_IsArc(e))
+        {
+            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
+                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
+
+            e = gp_GetEdgeVisited(theGraph, e) ? gp_GetNextArc(theGraph, e) : gp_DeleteEdge(theGraph, e, 0);
+        }
+    }
+    return OK;
+}
+
+/********************************************************************
+ _ClearInvertedFlagsInBicomp()
+
+ This function clears the inverted flag markers on any edges in a
+ given biconnected component.
+
+ The stack is used but preserved. In debug mode, NOTOK can result if
+ there is a stack overflow. This method pushes at most one integer
+ per vertex in the bicomp.
+
+ Returns OK on success, NOTOK on implementation failure
+ ********************************************************************/
+
+int _ClearInvertedFlagsInBicomp(graphP theGraph, int BicompRoot)
+{
+    int V, e;
+    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
+
+    sp_Push(theGraph->theStack, BicompRoot);
+    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
+    {
+        sp_Pop(theGraph->theStack, V);
+
+        e = gp_GetFirstArc(theGraph, V);
+        while (gp_IsArc(e))
+        {
+            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
+            {
+                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
+                gp_ClearEdgeFlagInverted(theGraph, e);
+            }
+
+            e = gp_GetNextArc(theGraph, e);
+        }
+    }
+    return OK;
+}
+
+/********************************************************************
+ _GetBicompSize()
+
+ Determine the number of vertices in the bicomp.
+
+ The stack is used but preserved. In debug mode, NOTOK can result if
+ there is a stack overflow. This method pushes at most one integer
+ per vertex in the bicomp.
+
+ Returns a positive number on success, NOTOK on implementation failure
+ ********************************************************************/
+
+int _GetBicompSize(graphP theGraph, int BicompRoot)
+{
+    int V, e;
+    int theSize = 0;
+    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
+
+    sp_Push(theGraph->theStack, BicompRoot);
+    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
+    {
+        sp_Pop(theGraph->theStack, V);
+        theSize++;
+        e = gp_GetFirstArc(theGraph, V);
+        while (gp_IsArc(e))
+        {
+            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
+                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
+
+            e = gp_GetNextArc(theGraph, e);
+        }
+    }
+    return theSize;
+}
+
+/********************************************************************
+ debugNOTOK()
+ This function provides a non-void wrapper for exit().
+ This is useful for debugging as it allows compilation of an exit
+ command in places where NOTOK is returned.
+ In exhaustive testing, we want to bail on the first NOTOK that occurs.
+ Comment out the exit() call to get a stack trace.
+ ********************************************************************/
+
+int debugNOTOK(void)
+{
+    // exit(-1);
+    return 0; // NOTOK is normally defined to be zero
+}
-- 
2.43.0


From 9d502b8c222ddcc21d92b87ce15b98e2505cb347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:04 +0000
Subject: [PATCH 41/60] fix: gp_CreateRandomGraph() must not overflow when
 bounding the number of edges

---
 c/graphLib/graphUtils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index a7d9706..a306f09 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1103,8 +1103,8 @@ int gp_CreateRandomGraph(graphP theGraph)
 
     M = _GetRandomNumber(7 * N / 8, theGraph->arcCapacity / 2);
 
-    if (M > N * (N - 1) / 2)
-        M = N * (N - 1) / 2;
+    if (M > (long long)N * (N - 1) / 2)
+        M = (int)((long long)N * (N - 1) / 2);
 
     for (m = N - 1; m < M; m++)
     {
-- 
2.43.0


From de0b25ca226033cfd4cbe62afa9ede0678c8036d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:04 +0000
Subject: [PATCH 42/60] fix: _TestSubgraph() must not compare graphs of
 different order

---
 c/graphLib/planarityRelated/graphTests.c | 1940 +++++++++++-----------
 1 file changed, 972 insertions(+), 968 deletions(-)

diff --git a/c/graphLib/planarityRelated/graphTests.c b/c/graphLib/planarityRelated/graphTests.c
index c6df6cc..3397095 100644
--- a/c/graphLib/planarityRelated/graphTests.c
+++ b/c/graphLib/planarityRelated/graphTests.c
@@ -1,968 +1,972 @@
-/*
-Copyright (c) 1997-2022, John M. Boyer
-All rights reserved.
-See the LICENSE.TXT file for licensing information.
-*/
-
-#define GRAPHTEST_C
-
-#include "../graph.h"
-#include "../lowLevelUtils/stack.h"
-
-extern void _ClearVertexVisitedFlags(graphP theGraph, int);
-
-/* Private function declarations */
-
-int _TestPath(graphP theGraph, int U, int V);
-int _TryPath(graphP theGraph, int e, int V);
-void _MarkPath(graphP theGraph, int e);
-int _TestSubgraph(graphP theSubgraph, graphP theGraph);
-
-int _CheckEmbeddingIntegrity(graphP theGraph, graphP origGraph);
-int _CheckEmbeddingFacialIntegrity(graphP theGraph);
-int _CheckObstructionIntegrity(graphP theGraph, graphP origGraph);
-
-int _CheckKuratowskiSubgraphIntegrity(graphP theGraph);
-int _CheckOuterplanarObstructionIntegrity(graphP theGraph);
-
-int _CheckAllVerticesOnExternalFace(graphP theGraph);
-void _MarkExternalFaceVertices(graphP theGraph, int startVertex);
-
-/********************************************************************
- gp_TestEmbedResultIntegrity()
-
-  This function tests the integrity of the graph result returned
-  from gp_Embed().
-
-  The caller of gp_Embed() does not have to save the original graph
-  because, for efficiency, gp_Embed() operates on the input graph.
-  However, to test the integrity of the result relative to the input,
-  a copy of the input graph is required.
-
-  Modules that extend/alter the behavior of gp_Embed() beyond the
-  core planarity embedder and planarity obstruction isolator should
-  also provide overriding integrity test routines appropriate to the
-  extension algorithm.
-
-  The main method first calls gp_SortVertices on theGraph, if the
-  origGraph is not in DFI order (the common case).  Therefore,
-  extension integrity tests can count on a consistent numbering
-  between theGraph and the origGraph, either DFI order or pre-DFS
-  order if that is the state of the origGraph.
-
-  After all tests, the main method ensures theGraph is restored to
-  DFI order by invoking gp_SortVertices if needed, thus ensuring
-  that theGraph has the documented post-condition of gp_Embed().
-
-  For an embedResult of OK, fpCheckEmbeddingIntegrity is invoked.
-  The core planarity implementation does a face walk of all faces
-  of the embedding.  It ensures that all edges were used in the face
-  walk and that the right number of faces exist for the number of
-  vertices and edges. Also, we ensure that all adjacencies expressed
-  in the original graph still exist in the result graph.
-
-  For an embedResult of NONEMBEDDABLE, fpCheckObstructionIntegrity
-  is invoked.  The core planarity algorithm checks that the result
-  graph is homeomorphic to K5 or K3,3 and that it is in fact a
-  subgraph of the input graph.  Other algorithms use overloads to
-  make appropriate checks.
-
-  Returns NOTOK on integrity check failure or embedResult of NOTOK
-          OK for successful integrity check of OK embedResult
-          NONEMBEDDABLE for successful integrity check of an
-                        embedResult of NONEMBEDDABLE
- ********************************************************************/
-
-int gp_TestEmbedResultIntegrity(graphP theGraph, graphP origGraph, int embedResult)
-{
-    int RetVal = embedResult;
-
-    if (theGraph == NULL || origGraph == NULL)
-        return NOTOK;
-
-    if (embedResult == OK)
-    {
-        RetVal = theGraph->functions.fpCheckEmbeddingIntegrity(theGraph, origGraph);
-    }
-    else if (embedResult == NONEMBEDDABLE)
-    {
-        RetVal = theGraph->functions.fpCheckObstructionIntegrity(theGraph, origGraph);
-    }
-
-    if (RetVal == OK)
-        RetVal = embedResult;
-
-    return RetVal;
-}
-
-/********************************************************************
- _CheckEmbeddingIntegrity()
-
-  The core planarity implementation does a face walk of all faces
-  of the embedding.  It ensures that all edges were used in the face
-  walk and that the right number of faces exist for the number of
-  vertices and edges. Also, we ensure that all adjacencies expressed
-  in the original graph still exist in the result graph, accounting
-  for the fact that the result graph is sorted by DFI, but the input
-  may or may not be sorted by DFI.
-
-  returns OK if all integrity tests passed, NOTOK otherwise
- ********************************************************************/
-
-int _CheckEmbeddingIntegrity(graphP theGraph, graphP origGraph)
-{
-    if (theGraph == NULL || origGraph == NULL)
-        return NOTOK;
-
-    if (_TestSubgraph(theGraph, origGraph) != TRUE)
-        return NOTOK;
-
-    if (_TestSubgraph(origGraph, theGraph) != TRUE)
-        return NOTOK;
-
-    if (_CheckEmbeddingFacialIntegrity(theGraph) != OK)
-        return NOTOK;
-
-    if (theGraph->embedFlags == EMBEDFLAGS_OUTERPLANAR)
-    {
-        if (_CheckAllVerticesOnExternalFace(theGraph) != OK)
-            return NOTOK;
-    }
-
-    return OK;
-}
-
-/********************************************************************
- _CheckEmbeddingFacialIntegrity()
-
- This function traverses all faces of a graph structure containing
- the planar embedding that results from gp_Embed().  The algorithm
- begins by placing all of the graph's arcs onto a stack and marking
- all of them as unvisited.  For each arc popped, if it is visited,
- it is immediately discarded and the next arc is popped.  Popping an
- unvisited arc e begins a face traversal.  We move to the true twin
- arc of e, and obtain its successor arc.  This amounts to always
- going clockwise or counterclockwise (depending on how the graph is
- drawn on the plane, or alternately whether one is above or below
- the plane).  This traversal continues until we make it back to the
- original arc e. Each arc along the way is marked as visited.  Further,
- if the successor arc has been visited, then there is an error since
- an arc can only appear in one face (the twin arc appears in a separate
- face, which is traversed in the opposing direction).
- If this algorithm succeeds without double visiting any arcs, and it
- produces the correct face count according to Euler's formula, then
- the embedding has all vertices oriented the same way.
- NOTE:  In disconnected graphs, the face reader counts the external
-        face of each connected component.  So, we adjust the face
-        count by subtracting one for each component, then we add one
-        to count the external face shared by all components.
- ********************************************************************/
-
-int _CheckEmbeddingFacialIntegrity(graphP theGraph)
-{
-    stackP theStack = theGraph->theStack;
-    int EsizeOccupied, v, e, eTwin, eStart, eNext, NumFaces, connectedComponents;
-
-    if (theGraph == NULL)
-        return NOTOK;
-
-    /* The stack need only contain 2M entries, one for each edge record. With
-            max M at 3N, this amounts to 6N integers of space.  The embedding
-            structure already contains this stack, so we just make sure it
-            starts out empty. */
-
-    sp_ClearStack(theStack);
-
-    /* Push all arcs and set them to unvisited */
-
-    EsizeOccupied = gp_EdgeInUseIndexBound(theGraph);
-    for (e = gp_GetFirstEdge(theGraph); e < EsizeOccupied; e += 2)
-    {
-        // Except skip edge holes
-        if (gp_EdgeInUse(theGraph, e))
-        {
-            sp_Push(theStack, e);
-            gp_ClearEdgeVisited(theGraph, e);
-            eTwin = gp_GetTwinArc(theGraph, e);
-            sp_Push(theStack, eTwin);
-            gp_ClearEdgeVisited(theGraph, eTwin);
-        }
-    }
-
-    // There are M edges, so we better have pushed 2M arcs just now
-    // i.e. testing that the continue above skipped only edge holes
-    if (sp_GetCurrentSize(theStack) != 2 * theGraph->M)
-        return NOTOK;
-
-    /* Read faces until every arc is used */
-
-    NumFaces = 0;
-    while (sp_NonEmpty(theStack))
-    {
-        /* Get an arc; if it has already been used by a face, then
-            don't use it to traverse a new face */
-        sp_Pop(theStack, eStart);
-        if (gp_GetEdgeVisited(theGraph, eStart))
-            continue;
-
-        e = eStart;
-        do
-        {
-            eNext = gp_GetNextArcCircular(theGraph, gp_GetTwinArc(theGraph, e));
-            if (gp_GetEdgeVisited(theGraph, eNext))
-                return NOTOK;
-            gp_SetEdgeVisited(theGraph, eNext);
-            e = eNext;
-        } while (e != eStart);
-        NumFaces++;
-    }
-
-    /* Count the external face once rather than once per connected component;
-        each connected component is detected by the fact that it has no
-        DFS parent, except in the case of isolated vertices, no face was counted
-        so we do not subtract one. */
-
-    connectedComponents = 0;
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-    {
-        if (gp_IsDFSTreeRoot(theGraph, v))
-        {
-            if (gp_GetVertexDegree(theGraph, v) > 0)
-                NumFaces--;
-            connectedComponents++;
-        }
-    }
-
-    NumFaces++;
-
-    /* Test number of faces using the extended Euler's formula.
-         For connected components, Euler's formula is f=m-n+2, but
-         for disconnected graphs it is extended to f=m-n+1+c where
-         c is the number of connected components.*/
-
-    return NumFaces == theGraph->M - theGraph->N + 1 + connectedComponents
-               ? OK
-               : NOTOK;
-}
-
-/********************************************************************
- _CheckAllVerticesOnExternalFace()
-
-  Determines whether or not any vertices have been embedded within
-  the bounding cycle of the external face.
-  The input graph may be disconnected, so this routine walks the
-  external face starting at each vertex with no DFSParent.
-
-  return OK if all vertices visited on external face walks, NOTOK otherwise
- ********************************************************************/
-
-int _CheckAllVerticesOnExternalFace(graphP theGraph)
-{
-    int v;
-
-    // Mark all vertices unvisited
-    _ClearVertexVisitedFlags(theGraph, FALSE);
-
-    // For each connected component, walk its external face and
-    // mark the vertices as visited
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-    {
-        if (gp_IsDFSTreeRoot(theGraph, v))
-            _MarkExternalFaceVertices(theGraph, v);
-    }
-
-    // If any vertex is unvisited, then the embedding is not an outerplanar
-    // embedding, so we return NOTOK
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-        if (!gp_GetVertexVisited(theGraph, v))
-            return NOTOK;
-
-    // All vertices were found on external faces of the connected components
-    // so the embedding is an outerplanar embedding and we return OK
-    return OK;
-}
-
-/********************************************************************
- _MarkExternalFaceVertices()
-
-  Walks the external face of the connected component containing the
-  start vertex, and marks the visited flag of all vertices found.
-  The start vertex is assumed to be on the external face.
-  This method assumed the embedding integrity has already been
-  verified to be correct.
-  This method correctly handles components that have cut vertices,
-  i.e. it does not assume that the outer face is a simple cycle;
-  it only assumes that all vertices are reachable by walking a
-  single face that starts with startVertex.
- ********************************************************************/
-
-void _MarkExternalFaceVertices(graphP theGraph, int startVertex)
-{
-    int nextVertex = startVertex;
-    int e = gp_GetFirstArc(theGraph, nextVertex);
-    int eTwin;
-
-    // Handle the case of an isolated vertex
-    if (gp_IsNotArc(e))
-    {
-        gp_SetVertexVisited(theGraph, startVertex);
-        return;
-    }
-
-    // Process a non-trivial connected component
-    do
-    {
-        gp_SetVertexVisited(theGraph, nextVertex);
-
-        // The arc out of the vertex just visited points to the next vertex
-        nextVertex = gp_GetNeighbor(theGraph, e);
-
-        // Arc used to enter the next vertex is needed so we can get the
-        // next edge in rotation order.
-        // Note: for bicomps, first and last arcs of all external face vertices
-        //       indicate the edges that hold them to the external face
-        //       But _JoinBicomps() has already occurred, so cut vertices
-        //       will have external face edges other than the first and last arcs
-        //       Hence we need this more sophisticated traversal method
-        eTwin = gp_GetTwinArc(theGraph, e);
-
-        // Now we get the next arc in rotation order as the new arc out to the
-        // vertex after nextVertex.  This sets us up for the next iteration.
-        // Note: We cannot simply follow the chain of nextVertex first arcs
-        //       as we started out doing at the top of this method.  This is
-        //       because we are no longer dealing with bicomps only.
-        //       Since _JoinBicomps() has already been invoked, there may now
-        //       be cut vertices on the external face whose adjacency lists
-        //       contain external face arcs in positions other than the first and
-        //       and last arcs.  We will visit those vertices multiple times,
-        //       which is OK (just that we have to explain why we're calculating
-        //       jout in this way).
-        e = gp_GetNextArcCircular(theGraph, eTwin);
-
-        // Now things get really interesting.  The DFS root (startVertex) may
-        // itself be a cut vertex to which multiple bicomps have been joined.
-        // So we cannot simply stop when the external face walk gets back to
-        // startVertex.  We must actually get back to startVertex using its
-        // last arc.  This ensures that we've looped down into all the DFS
-        // subtrees rooted at startVertex and walked their external faces.
-
-        // Since we started the whole external face walk with the first arc
-        // of startVertex, we need to proceed until we reenter startVertex
-        // using its last arc.
-
-    } while (eTwin != gp_GetLastArc(theGraph, startVertex));
-}
-
-/********************************************************************
- _CheckObstructionIntegrity()
-
-  Returns OK if theGraph is a subgraph of origGraph and it contains
-    an allowed homeomorph, and NOTOK otherwise.
-
-  For core planarity, the allowed homeomorphs are K_5 or K_{3,3}
-
-  Extension modules may overload this method to implement different
-  tests.  For example, K_{3,3} search allows only K_{3,3} and
-  outerplanarity allows only K_4 or K_{2,3}.
- ********************************************************************/
-
-int _CheckObstructionIntegrity(graphP theGraph, graphP origGraph)
-{
-    if (theGraph == NULL || origGraph == NULL)
-        return NOTOK;
-
-    if (_TestSubgraph(theGraph, origGraph) != TRUE)
-    {
-        return NOTOK;
-    }
-
-    if (theGraph->embedFlags == EMBEDFLAGS_PLANAR)
-        return _CheckKuratowskiSubgraphIntegrity(theGraph);
-
-    else if (theGraph->embedFlags == EMBEDFLAGS_OUTERPLANAR)
-        return _CheckOuterplanarObstructionIntegrity(theGraph);
-
-    return NOTOK;
-}
-
-/********************************************************************
- _getImageVertices()
-
- Count the number of vertices of each degree and find the locations of
- the image vertices (also sometimes called the corners of the obstruction).
- An image vertex is a vertex of degree three or higher because degree
- 2 vertices are generally internal to the paths between the image
- vertices.
-
- The notable exception is K_{2,3}, an obstruction to outerplanarity.
- This routine does not know the obstruction it is looking for, so the
- caller must decide whether there are any degree 2 vertices that should
- be added to imageVerts.
-
- Return NOTOK if any vertex of degree 1 or higher than the max is found
-        NOTOK if more than the max number of image vertices is found.
-        Return OK otherwise.
- ********************************************************************/
-
-int _getImageVertices(graphP theGraph, int *degrees, int maxDegree,
-                      int *imageVerts, int maxNumImageVerts)
-{
-    int K, v, imageVertPos, degree;
-
-    for (degree = 0; degree <= maxDegree; degree++)
-        degrees[degree] = 0;
-
-    for (K = 0; K < maxNumImageVerts; K++)
-        imageVerts[K] = NIL;
-
-    imageVertPos = 0;
-
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-    {
-        degree = gp_GetVertexDegree(theGraph, v);
-        if (degree == 1)
-            return NOTOK;
-        if (degree > maxDegree)
-            return NOTOK;
-
-        degrees[degree]++;
-
-        if (imageVertPos < maxNumImageVerts && degree > 2)
-            imageVerts[imageVertPos++] = v;
-        else if (degree > 2)
-            return NOTOK;
-    }
-
-    return OK;
-}
-
-/********************************************************************
- _TestForCompleteGraphObstruction()
-
- theGraph - the graph to test
- numVerts - the number of image vertices (corners) of the complete
-            graph homeomorph being tested for (e.g. 5 for a K5)
- degrees -  array of counts of the number of vertices of each degree
-            given by the array index.  Only valid up to numVerts-1
- imageVerts - the vertices of degree numVerts-1
-
- This routine tests whether theGraph is a K_{numVerts} homeomorph for
- numVerts >= 4.
-
- returns FALSE if numVerts < 4,
-               if theGraph has other than numVerts image vertices
-               if theGraph contains other than degree 2 vertices plus
-                  the image vertices
-               if any pair of image vertices lacks a connecting path
-               if any degree two vertices are not in the connecting paths
-         TRUE  otherwise
- ********************************************************************/
-
-int _TestForCompleteGraphObstruction(graphP theGraph, int numVerts,
-                                     int *degrees, int *imageVerts)
-{
-    int v, w;
-
-    // We need to make sure we have numVerts vertices of degree numVerts-1
-    // For example, if numVerts==5, then we're looking for a K5, so we
-    // need to have degrees[4] == 5 (5 vertices of degree 4)
-    if (degrees[numVerts - 1] != numVerts)
-        return FALSE;
-
-    // All vertices need to be degree 0, degree 2 or degree numVerts-1
-    if (degrees[0] + degrees[2] + degrees[numVerts - 1] != theGraph->N)
-        return FALSE;
-
-    // We clear all the vertex visited flags
-    _ClearVertexVisitedFlags(theGraph, FALSE);
-
-    // For each pair of image vertices, we test that there is a path
-    // between the two vertices.  If so, the visited flags of the
-    // internal vertices along the path are marked
-    //
-    for (v = 0; v < numVerts; v++)
-        for (w = 0; w < numVerts; w++)
-            if (v != w)
-                if (_TestPath(theGraph, imageVerts[v],
-                              imageVerts[w]) != TRUE)
-                    return FALSE;
-
-    // The visited flags should have marked only degree two vertices,
-    // so for every marked vertex, we subtract one from the count of
-    // the degree two vertices.
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-        if (gp_GetVertexVisited(theGraph, v))
-            degrees[2]--;
-
-    /* If every degree 2 vertex is used in a path between image
-        vertices, then there are no extra pieces of the graph
-        in theGraph.  Specifically, the prior tests identify
-        a K_5 and ensure that nothing else could exist in the
-        graph except extra degree 2 vertices, which must be
-        joined in a cycle so that all are degree 2. */
-
-    return degrees[2] == 0 ? TRUE : FALSE;
-}
-
-/********************************************************************
- _TestForK33GraphObstruction()
-
- theGraph - the graph to test
- degrees -  array of counts of the number of vertices of each degree
-            given by the array index.  Only valid up to numVerts-1
- imageVerts - the degree 3 vertices of the K3,3 homeomorph
-
- This routine tests whether theGraph is a K_{3,3} homeomorph.
-
- returns TRUE if so, FALSE if not
- ********************************************************************/
-
-int _TestForK33GraphObstruction(graphP theGraph, int *degrees, int *imageVerts)
-{
-    int v, K, imageVertPos, temp, success;
-
-    if (degrees[4] != 0)
-        return FALSE;
-
-    if (degrees[3] != 6)
-        return FALSE;
-
-    /* Partition the six image vertices into two sets of 3
-           (or report failure) */
-
-    for (imageVertPos = 3; imageVertPos < 6; imageVertPos++)
-    {
-        K = 0;
-        success = FALSE;
-        do
-        {
-            if (_TestPath(theGraph, imageVerts[imageVertPos], imageVerts[0]) == TRUE)
-            {
-                success = TRUE;
-                break;
-            }
-
-            K++;
-            temp = imageVerts[K];
-            imageVerts[K] = imageVerts[imageVertPos];
-            imageVerts[imageVertPos] = temp;
-        } while (K < 3);
-
-        if (!success)
-            return FALSE;
-    }
-
-    /* Now test the paths between each of the first three vertices and
-           each of the last three vertices */
-
-    _ClearVertexVisitedFlags(theGraph, FALSE);
-
-    for (imageVertPos = 0; imageVertPos < 3; imageVertPos++)
-        for (K = 3; K < 6; K++)
-            if (_TestPath(theGraph, imageVerts[imageVertPos],
-                          imageVerts[K]) != TRUE)
-                return FALSE;
-
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-        if (gp_GetVertexVisited(theGraph, v))
-            degrees[2]--;
-
-    /* If every degree 2 vertex is used in a path between image
-           vertices, then there are no extra pieces of the graph
-           in theGraph.  Specifically, the prior tests identify
-           a K_{3,3} and ensure that nothing else could exist in the
-           graph except extra degree 2 vertices, which must be
-           joined in a cycle so that all are degree 2. */
-
-    return degrees[2] == 0 ? TRUE : FALSE;
-}
-
-/********************************************************************
- _CheckKuratowskiSubgraphIntegrity()
-
- This function checks whether theGraph received as input contains
- either a K_5 or K_{3,3} homeomorph.
-
- RETURNS:   OK if theGraph contains a K_5 or K_{3,3} homeomorph,
-            NOTOK otherwise
-
- To be a K_5 homeomorph, there must be exactly 5 vertices of degree 4,
- which are called 'image' vertices, and all other vertices must be
- either degree 2 or degree 0. Furthermore, each of the image vertices
- must be able to reach all of the other image vertices by a single edge
- or a path of degree two vertices.
-
- To be a K_{3,3} homeomorph, there must be exactly 6 vertices of degree 3,
- which are called 'image' vertices, and all other vertices must be either
- degree 2 or degree 0.  Furthermore, the image vertices must be connected
- by edges or paths of degree two vertices in the manner suggested by
- a K_{3,3}.  To test this, we select an image vertex U, and determine
- three image vertices X, Y and Z reachable from U by single edges or
- paths of degree 2 vertices.  Then, we check that the two remaining image
- vertices, V and W, can also reach X, Y and Z by single edges or paths of
- degree 2 vertices.
-
- It is not necessary to check that the paths between the image vertices
- are distinct since if the paths had a common vertex, then the common
- vertex would not be degree 2.
- ********************************************************************/
-
-int _CheckKuratowskiSubgraphIntegrity(graphP theGraph)
-{
-    int degrees[5], imageVerts[6];
-
-    if (_getImageVertices(theGraph, degrees, 4, imageVerts, 6) != OK)
-        return NOTOK;
-
-    if (_TestForCompleteGraphObstruction(theGraph, 5, degrees, imageVerts) == TRUE)
-    {
-        return OK;
-    }
-
-    if (_TestForK33GraphObstruction(theGraph, degrees, imageVerts) == TRUE)
-    {
-        return OK;
-    }
-
-    return NOTOK;
-}
-
-/********************************************************************
- _TestForK23GraphObstruction()
-
- theGraph - the graph to test
- degrees -  array of counts of the number of vertices of each degree
-            given by the array index.  Only valid up to numVerts-1
- imageVerts - the degree 3 vertices of the K2,3 homeomorph
-
- This routine tests whether theGraph is a K_{2,3} homeomorph.
- This routine operates over the results of _getImageVertices()
-
- returns TRUE if so, FALSE if not
- ********************************************************************/
-
-int _TestForK23GraphObstruction(graphP theGraph, int *degrees, int *imageVerts)
-{
-    int v, e, imageVertPos;
-
-    // This function operates over the imageVerts results produced by
-    // getImageVertices, which only finds vertices of degree 3 or higher.
-    // So, for a K2,3, there must be exactly two degree 3 vertices and
-    // no degree 4 vertices.
-    if (degrees[3] != 2)
-        return FALSE;
-
-    // For K_{2,3}, the three vertices of degree 2 were not
-    // detected as image vertices because degree 2 vertices
-    // are indistinguishable from the internal path vertices
-    // between the image vertices.  So, here we acknowledge
-    // that more image vertices need to be selected.
-    imageVertPos = 2;
-
-    // Assign the remaining three image vertices to be the
-    // neighbors of the first degree 3 image vertex.
-    // Ensure that each is distinct from the second
-    // degree 3 image vertex. This must be the case because
-    // the two degree 3 image vertices are in the same partition
-    // and hence must not be adjacent.
-
-    e = gp_GetFirstArc(theGraph, imageVerts[0]);
-    while (gp_IsArc(e))
-    {
-        imageVerts[imageVertPos] = gp_GetNeighbor(theGraph, e);
-        if (imageVerts[imageVertPos] == imageVerts[1])
-            return FALSE;
-        imageVertPos++;
-        e = gp_GetNextArc(theGraph, e);
-    }
-
-    /* The paths from imageVerts[0] to each of the new degree 2
-         image vertices are the edges we just traversed.
-         Now test the paths between each of the degree 2 image
-         vertices and imageVerts[1]. */
-
-    _ClearVertexVisitedFlags(theGraph, FALSE);
-
-    for (imageVertPos = 2; imageVertPos < 5; imageVertPos++)
-    {
-        if (_TestPath(theGraph, imageVerts[imageVertPos],
-                      imageVerts[1]) != TRUE)
-            return FALSE;
-
-        gp_SetVertexVisited(theGraph, imageVerts[imageVertPos]);
-    }
-
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-        if (gp_GetVertexVisited(theGraph, v))
-            degrees[2]--;
-
-    /* If every degree 2 vertex is used in a path between the
-         two degree 3 image vertices, then there are no extra
-         pieces of the graph in theGraph.  Specifically, the
-         prior tests identify a K_{2,3} and ensure that nothing
-         else could exist in the graph... except extra degree 2
-         vertices joined in a cycle. We return NOTOK in that case. */
-
-    return degrees[2] == 0 ? TRUE : FALSE;
-}
-
-/********************************************************************
- _CheckOuterplanarObstructionIntegrity()
-
- This function checks whether theGraph received as input contains
- either a K_4 or K_{2,3} homeomorph.
-
- RETURNS:   OK if theGraph contains a K_4 or K_{2,3} homeomorph,
-            NOTOK otherwise
-
- To be a K_4 homeomorph, there must be exactly 4 vertices of degree 3,
- which are called 'image' vertices, and all other vertices must be
- either degree 2 or degree 0. Furthermore, each of the image vertices
- must be able to reach all of the other image vertices by a single edge
- or a path of degree two vertices.
-
- To be a K_{2,3} homeomorph, there must be exactly 2 vertices of degree 3.
- All other vertices must be degree 2.  Furthermore, the two degree 3
- vertices must have three internally disjoint paths connecting them,
- and each path must contain at least two edges (i.e. at least one internal
- vertex).  The two degree 3 vertices are image vertices, and an internal
- vertex from each of the three paths contributes the remaining three
- image vertices.
-
- It is not necessary to check that the paths between the degree three
- vertices are distinct since if the paths had a common vertex, then the
- common vertex would not be degree 2.
- ********************************************************************/
-
-int _CheckOuterplanarObstructionIntegrity(graphP theGraph)
-{
-    int degrees[4], imageVerts[5];
-
-    if (_getImageVertices(theGraph, degrees, 3, imageVerts, 5) != OK)
-        return NOTOK;
-
-    if (_TestForCompleteGraphObstruction(theGraph, 4, degrees, imageVerts) == TRUE)
-    {
-        return OK;
-    }
-
-    if (_TestForK23GraphObstruction(theGraph, degrees, imageVerts) == TRUE)
-    {
-        return OK;
-    }
-
-    /* We get here only if we failed to recognize an outerplanarity
-        obstruction, so we return failure */
-
-    return NOTOK;
-}
-
-/********************************************************************
- _TestPath()
-
- This function determines whether there exists a path of degree two
- vertices between two given vertices.  The function marks each
- degree two vertex as visited.  It returns TRUE if it finds the
- path and FALSE otherwise.
- ********************************************************************/
-
-int _TestPath(graphP theGraph, int U, int V)
-{
-    int e = gp_GetFirstArc(theGraph, U);
-
-    while (gp_IsArc(e))
-    {
-        if (_TryPath(theGraph, e, V) == OK)
-        {
-            _MarkPath(theGraph, e);
-            return TRUE;
-        }
-
-        e = gp_GetNextArc(theGraph, e);
-    }
-
-    return FALSE;
-}
-
-/********************************************************************
- _TryPath()
-
- This function seeks a given path to a vertex V starting with a
- given edge out of a starting vertex U.  The path is allowed to
- contain zero or more degree two vertices, but we stop as soon as
- a vertex of degree higher than two is encountered.
- The function returns boolean true if that vertex is V, and
- boolean false otherwise.
- ********************************************************************/
-
-int _TryPath(graphP theGraph, int e, int V)
-{
-    int eTwin, nextVertex;
-
-    nextVertex = gp_GetNeighbor(theGraph, e);
-
-    // while nextVertex is strictly degree 2
-    while (gp_IsArc(gp_GetFirstArc(theGraph, nextVertex)) &&
-           gp_IsArc(gp_GetLastArc(theGraph, nextVertex)) &&
-           gp_GetNextArc(theGraph, gp_GetFirstArc(theGraph, nextVertex)) == gp_GetLastArc(theGraph, nextVertex))
-    {
-        eTwin = gp_GetTwinArc(theGraph, e);
-        e = gp_GetFirstArc(theGraph, nextVertex);
-        if (e == eTwin)
-            e = gp_GetLastArc(theGraph, nextVertex);
-
-        nextVertex = gp_GetNeighbor(theGraph, e);
-    }
-
-    return nextVertex == V ? TRUE : FALSE;
-}
-
-/********************************************************************
- _MarkPath()
-
- This function sets the visitation flag on all degree two vertices
- along a path to a vertex V that starts with a given edge out of
- a starting vertex U.
- ********************************************************************/
-
-void _MarkPath(graphP theGraph, int e)
-{
-    int eTwin, nextVertex;
-
-    nextVertex = gp_GetNeighbor(theGraph, e);
-    // while nextVertex is strictly degree 2
-    while (gp_IsArc(gp_GetFirstArc(theGraph, nextVertex)) &&
-           gp_IsArc(gp_GetLastArc(theGraph, nextVertex)) &&
-           gp_GetNextArc(theGraph, gp_GetFirstArc(theGraph, nextVertex)) == gp_GetLastArc(theGraph, nextVertex))
-    {
-        gp_SetVertexVisited(theGraph, nextVertex);
-
-        eTwin = gp_GetTwinArc(theGraph, e);
-        e = gp_GetFirstArc(theGraph, nextVertex);
-        if (e == eTwin)
-            e = gp_GetLastArc(theGraph, nextVertex);
-
-        nextVertex = gp_GetNeighbor(theGraph, e);
-    }
-}
-
-/********************************************************************
- _TestSubgraph()
- Checks whether theSubgraph is in fact a subgraph of theGraph.
- For each vertex v in graph G and subgraph H, we iterate the adjacency
- list of H(v) and, for each neighbor w, we mark G(w).  Then, we
- iterate the adjacency list of G(v) and unmark each neighbor.  Then,
- we iterate the adjacency list of H(v) again to ensure that every
- neighbor w was unmarked.  If there exists a marked neighbor, then
- H(v) contains an incident edge that is not incident to G(v).
-
- Returns TRUE if theSubgraph contains only edges from theGraph,
-         FALSE otherwise
- ********************************************************************/
-
-int _TestSubgraph(graphP theSubgraph, graphP theGraph)
-{
-    int v, e, degreeCount;
-    int Result = TRUE;
-    int invokeSortOnGraph = FALSE;
-    int invokeSortOnSubgraph = FALSE;
-
-    // If the graph is not sorted by DFI, but the alleged subgraph is,
-    // then "unsort" the alleged subgraph so both have the same vertex order
-    if (!(theGraph->internalFlags & FLAGS_SORTEDBYDFI) &&
-        (theSubgraph->internalFlags & FLAGS_SORTEDBYDFI))
-    {
-        invokeSortOnSubgraph = TRUE;
-        gp_SortVertices(theSubgraph);
-    }
-
-    // If the graph is not sorted by DFI, but the alleged subgraph is,
-    // then "unsort" the alleged subgraph so both have the same vertex order
-    if (!(theSubgraph->internalFlags & FLAGS_SORTEDBYDFI) &&
-        (theGraph->internalFlags & FLAGS_SORTEDBYDFI))
-    {
-        invokeSortOnGraph = TRUE;
-        gp_SortVertices(theGraph);
-    }
-
-    /* We clear all visitation flags */
-
-    _ClearVertexVisitedFlags(theGraph, FALSE);
-
-    /* For each vertex... */
-    for (v = gp_GetFirstVertex(theSubgraph), degreeCount = 0; gp_VertexInRange(theSubgraph, v); v++)
-    {
-        /* For each neighbor w in the adjacency list of vertex v in the
-              subgraph, set the visited flag in w in the graph */
-
-        e = gp_GetFirstArc(theSubgraph, v);
-        while (gp_IsArc(e))
-        {
-            if (gp_IsNotVertex(gp_GetNeighbor(theSubgraph, e)))
-            {
-                Result = FALSE;
-                break;
-            }
-            degreeCount++;
-            gp_SetVertexVisited(theGraph, gp_GetNeighbor(theSubgraph, e));
-            e = gp_GetNextArc(theSubgraph, e);
-        }
-
-        if (Result != TRUE)
-            break;
-
-        /* For each neighbor w in the adjacency list of vertex v in the graph,
-              clear the visited flag in w in the graph */
-
-        e = gp_GetFirstArc(theGraph, v);
-        while (gp_IsArc(e))
-        {
-            if (gp_IsNotVertex(gp_GetNeighbor(theGraph, e)))
-            {
-                Result = FALSE;
-                break;
-            }
-            gp_ClearVertexVisited(theGraph, gp_GetNeighbor(theGraph, e));
-            e = gp_GetNextArc(theGraph, e);
-        }
-
-        if (Result != TRUE)
-            break;
-
-        /* For each neighbor w in the adjacency list of vertex v in the subgraph,
-           ensure that the visited flag in w was cleared (otherwise, the "subgraph"
-           would incorrectly contain an adjacency not contained in the ("super") graph) */
-
-        e = gp_GetFirstArc(theSubgraph, v);
-        while (gp_IsArc(e))
-        {
-            if (gp_GetVertexVisited(theGraph, gp_GetNeighbor(theSubgraph, e)))
-            {
-                Result = FALSE;
-                break;
-            }
-            e = gp_GetNextArc(theSubgraph, e);
-        }
-
-        if (Result != TRUE)
-            break;
-    }
-
-    // Restore the DFI sort order of either graph if it had to be reordered at the start
-    if (invokeSortOnSubgraph)
-        gp_SortVertices(theSubgraph);
-    if (invokeSortOnGraph)
-        gp_SortVertices(theGraph);
-
-    // Assuming theSubgraph is a subgraph, we also do an extra integrity check to ensure
-    // proper edge array utilization
-    if (Result == TRUE)
-    {
-        // If the edge count is wrong, we fail the subgraph test in a way that invokes
-        // the name NOTOK so that in debug mode there is more trace on the failure.
-        if (degreeCount != 2 * theSubgraph->M)
-            Result = NOTOK == FALSE ? NOTOK : FALSE;
-    }
-
-    return Result;
-}
+/*
+Copyright (c) 1997-2022, John M. Boyer
+All rights reserved.
+See the LICENSE.TXT file for licensing information.
+*/
+
+#define GRAPHTEST_C
+
+#include "../graph.h"
+#include "../lowLevelUtils/stack.h"
+
+extern void _ClearVertexVisitedFlags(graphP theGraph, int);
+
+/* Private function declarations */
+
+int _TestPath(graphP theGraph, int U, int V);
+int _TryPath(graphP theGraph, int e, int V);
+void _MarkPath(graphP theGraph, int e);
+int _TestSubgraph(graphP theSubgraph, graphP theGraph);
+
+int _CheckEmbeddingIntegrity(graphP theGraph, graphP origGraph);
+int _CheckEmbeddingFacialIntegrity(graphP theGraph);
+int _CheckObstructionIntegrity(graphP theGraph, graphP origGraph);
+
+int _CheckKuratowskiSubgraphIntegrity(graphP theGraph);
+int _CheckOuterplanarObstructionIntegrity(graphP theGraph);
+
+int _CheckAllVerticesOnExternalFace(graphP theGraph);
+void _MarkExternalFaceVertices(graphP theGraph, int startVertex);
+
+/********************************************************************
+ gp_TestEmbedResultIntegrity()
+
+  This function tests the integrity of the graph result returned
+  from gp_Embed().
+
+  The caller of gp_Embed() does not have to save the original graph
+  because, for efficiency, gp_Embed() operates on the input graph.
+  However, to test the integrity of the result relative to the input,
+  a copy of the input graph is required.
+
+  Modules that extend/alter the behavior of gp_Embed() beyond the
+  core planarity embedder and planarity obstruction isolator should
+  also provide overriding integrity test routines appropriate to the
+  extension algorithm.
+
+  The main method first calls gp_SortVertices on theGraph, if the
+  origGraph is not in DFI order (the common case).  Therefore,
+  extension integrity tests can count on a consistent numbering
+  between theGraph and the origGraph, either DFI order or pre-DFS
+  order if that is the state of the origGraph.
+
+  After all tests, the main method ensures theGraph is restored to
+  DFI order by invoking gp_SortVertices if needed, thus ensuring
+  that theGraph has the documented post-condition of gp_Embed().
+
+  For an embedResult of OK, fpCheckEmbeddingIntegrity is invoked.
+  The core planarity implementation does a face walk of all faces
+  of the embedding.  It ensures that all edges were used in the face
+  walk and that the right number of faces exist for the number of
+  vertices and edges. Also, we ensure that all adjacencies expressed
+  in the original graph still exist in the result graph.
+
+  For an embedResult of NONEMBEDDABLE, fpCheckObstructionIntegrity
+  is invoked.  The core planarity algorithm checks that the result
+  graph is homeomorphic to K5 or K3,3 and that it is in fact a
+  subgraph of the input graph.  Other algorithms use overloads to
+  make appropriate checks.
+
+  Returns NOTOK on integrity check failure or embedResult of NOTOK
+          OK for successful integrity check of OK embedResult
+          NONEMBEDDABLE for successful integrity check of an
+                        embedResult of NONEMBEDDABLE
+ ********************************************************************/
+
+int gp_TestEmbedResultIntegrity(graphP theGraph, graphP origGraph, int embedResult)
+{
+    int RetVal = embedResult;
+
+    if (theGraph == NULL || origGraph == NULL)
+        return NOTOK;
+
+    if (embedResult == OK)
+    {
+        RetVal = theGraph->functions.fpCheckEmbeddingIntegrity(theGraph, origGraph);
+    }
+    else if (embedResult == NONEMBEDDABLE)
+    {
+        RetVal = theGraph->functions.fpCheckObstructionIntegrity(theGraph, origGraph);
+    }
+
+    if (RetVal == OK)
+        RetVal = embedResult;
+
+    return RetVal;
+}
+
+/********************************************************************
+ _CheckEmbeddingIntegrity()
+
+  The core planarity implementation does a face walk of all faces
+  of the embedding.  It ensures that all edges were used in the face
+  walk and that the right number of faces exist for the number of
+  vertices and edges. Also, we ensure that all adjacencies expressed
+  in the original graph still exist in the result graph, accounting
+  for the fact that the result graph is sorted by DFI, but the input
+  may or may not be sorted by DFI.
+
+  returns OK if all integrity tests passed, NOTOK otherwise
+ ********************************************************************/
+
+int _CheckEmbeddingIntegrity(graphP theGraph, graphP origGraph)
+{
+    if (theGraph == NULL || origGraph == NULL)
+        return NOTOK;
+
+    if (_TestSubgraph(theGraph, origGraph) != TRUE)
+        return NOTOK;
+
+    if (_TestSubgraph(origGraph, theGraph) != TRUE)
+        return NOTOK;
+
+    if (_CheckEmbeddingFacialIntegrity(theGraph) != OK)
+        return NOTOK;
+
+    if (theGraph->embedFlags == EMBEDFLAGS_OUTERPLANAR)
+    {
+        if (_CheckAllVerticesOnExternalFace(theGraph) != OK)
+            return NOTOK;
+    }
+
+    return OK;
+}
+
+/********************************************************************
+ _CheckEmbeddingFacialIntegrity()
+
+ This function traverses all faces of a graph structure containing
+ the planar embedding that results from gp_Embed().  The algorithm
+ begins by placing all of the graph's arcs onto a stack and marking
+ all of them as unvisited.  For each arc popped, if it is visited,
+ it is immediately discarded and the next arc is popped.  Popping an
+ unvisited arc e begins a face traversal.  We move to the true twin
+ arc of e, and obtain its successor arc.  This amounts to always
+ going clockwise or counterclockwise (depending on how the graph is
+ drawn on the plane, or alternately whether one is above or below
+ the plane).  This traversal continues until we make it back to the
+ original arc e. Each arc along the way is marked as visited.  Further,
+ if the successor arc has been visited, then there is an error since
+ an arc can only appear in one face (the twin arc appears in a separate
+ face, which is traversed in the opposing direction).
+ If this algorithm succeeds without double visiting any arcs, and it
+ produces the correct face count according to Euler's formula, then
+ the embedding has all vertices oriented the same way.
+ NOTE:  In disconnected graphs, the face reader counts the external
+        face of each connected component.  So, we adjust the face
+        count by subtracting one for each component, then we add one
+        to count the external face shared by all components.
+ ********************************************************************/
+
+int _CheckEmbeddingFacialIntegrity(graphP theGraph)
+{
+    stackP theStack = theGraph->theStack;
+    int EsizeOccupied, v, e, eTwin, eStart, eNext, NumFaces, connectedComponents;
+
+    if (theGraph == NULL)
+        return NOTOK;
+
+    /* The stack need only contain 2M entries, one for each edge record. With
+            max M at 3N, this amounts to 6N integers of space.  The embedding
+            structure already contains this stack, so we just make sure it
+            starts out empty. */
+
+    sp_ClearStack(theStack);
+
+    /* Push all arcs and set them to unvisited */
+
+    EsizeOccupied = gp_EdgeInUseIndexBound(theGraph);
+    for (e = gp_GetFirstEdge(theGraph); e < EsizeOccupied; e += 2)
+    {
+        // Except skip edge holes
+        if (gp_EdgeInUse(theGraph, e))
+        {
+            sp_Push(theStack, e);
+            gp_ClearEdgeVisited(theGraph, e);
+            eTwin = gp_GetTwinArc(theGraph, e);
+            sp_Push(theStack, eTwin);
+            gp_ClearEdgeVisited(theGraph, eTwin);
+        }
+    }
+
+    // There are M edges, so we better have pushed 2M arcs just now
+    // i.e. testing that the continue above skipped only edge holes
+    if (sp_GetCurrentSize(theStack) != 2 * theGraph->M)
+        return NOTOK;
+
+    /* Read faces until every arc is used */
+
+    NumFaces = 0;
+    while (sp_NonEmpty(theStack))
+    {
+        /* Get an arc; if it has already been used by a face, then
+            don't use it to traverse a new face */
+        sp_Pop(theStack, eStart);
+        if (gp_GetEdgeVisited(theGraph, eStart))
+            continue;
+
+        e = eStart;
+        do
+        {
+            eNext = gp_GetNextArcCircular(theGraph, gp_GetTwinArc(theGraph, e));
+            if (gp_GetEdgeVisited(theGraph, eNext))
+                return NOTOK;
+            gp_SetEdgeVisited(theGraph, eNext);
+            e = eNext;
+        } while (e != eStart);
+        NumFaces++;
+    }
+
+    /* Count the external face once rather than once per connected component;
+        each connected component is detected by the fact that it has no
+        DFS parent, except in the case of isolated vertices, no face was counted
+        so we do not subtract one. */
+
+    connectedComponents = 0;
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+    {
+        if (gp_IsDFSTreeRoot(theGraph, v))
+        {
+            if (gp_GetVertexDegree(theGraph, v) > 0)
+                NumFaces--;
+            connectedComponents++;
+        }
+    }
+
+    NumFaces++;
+
+    /* Test number of faces using the extended Euler's formula.
+         For connected components, Euler's formula is f=m-n+2, but
+         for disconnected graphs it is extended to f=m-n+1+c where
+         c is the number of connected components.*/
+
+    return NumFaces == theGraph->M - theGraph->N + 1 + connectedComponents
+               ? OK
+               : NOTOK;
+}
+
+/********************************************************************
+ _CheckAllVerticesOnExternalFace()
+
+  Determines whether or not any vertices have been embedded within
+  the bounding cycle of the external face.
+  The input graph may be disconnected, so this routine walks the
+  external face starting at each vertex with no DFSParent.
+
+  return OK if all vertices visited on external face walks, NOTOK otherwise
+ ********************************************************************/
+
+int _CheckAllVerticesOnExternalFace(graphP theGraph)
+{
+    int v;
+
+    // Mark all vertices unvisited
+    _ClearVertexVisitedFlags(theGraph, FALSE);
+
+    // For each connected component, walk its external face and
+    // mark the vertices as visited
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+    {
+        if (gp_IsDFSTreeRoot(theGraph, v))
+            _MarkExternalFaceVertices(theGraph, v);
+    }
+
+    // If any vertex is unvisited, then the embedding is not an outerplanar
+    // embedding, so we return NOTOK
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+        if (!gp_GetVertexVisited(theGraph, v))
+            return NOTOK;
+
+    // All vertices were found on external faces of the connected components
+    // so the embedding is an outerplanar embedding and we return OK
+    return OK;
+}
+
+/********************************************************************
+ _MarkExternalFaceVertices()
+
+  Walks the external face of the connected component containing the
+  start vertex, and marks the visited flag of all vertices found.
+  The start vertex is assumed to be on the external face.
+  This method assumed the embedding integrity has already been
+  verified to be correct.
+  This method correctly handles components that have cut vertices,
+  i.e. it does not assume that the outer face is a simple cycle;
+  it only assumes that all vertices are reachable by walking a
+  single face that starts with startVertex.
+ ********************************************************************/
+
+void _MarkExternalFaceVertices(graphP theGraph, int startVertex)
+{
+    int nextVertex = startVertex;
+    int e = gp_GetFirstArc(theGraph, nextVertex);
+    int eTwin;
+
+    // Handle the case of an isolated vertex
+    if (gp_IsNotArc(e))
+    {
+        gp_SetVertexVisited(theGraph, startVertex);
+        return;
+    }
+
+    // Process a non-trivial connected component
+    do
+    {
+        gp_SetVertexVisited(theGraph, nextVertex);
+
+        // The arc out of the vertex just visited points to the next vertex
+        nextVertex = gp_GetNeighbor(theGraph, e);
+
+        // Arc used to enter the next vertex is needed so we can get the
+        // next edge in rotation order.
+        // Note: for bicomps, first and last arcs of all external face vertices
+        //       indicate the edges that hold them to the external face
+        //       But _JoinBicomps() has already occurred, so cut vertices
+        //       will have external face edges other than the first and last arcs
+        //       Hence we need this more sophisticated traversal method
+        eTwin = gp_GetTwinArc(theGraph, e);
+
+        // Now we get the next arc in rotation order as the new arc out to the
+        // vertex after nextVertex.  This sets us up for the next iteration.
+        // Note: We cannot simply follow the chain of nextVertex first arcs
+        //       as we started out doing at the top of this method.  This is
+        //       because we are no longer dealing with bicomps only.
+        //       Since _JoinBicomps() has already been invoked, there may now
+        //       be cut vertices on the external face whose adjacency lists
+        //       contain external face arcs in positions other than the first and
+        //       and last arcs.  We will visit those vertices multiple times,
+        //       which is OK (just that we have to explain why we're calculating
+        //       jout in this way).
+        e = gp_GetNextArcCircular(theGraph, eTwin);
+
+        // Now things get really interesting.  The DFS root (startVertex) may
+        // itself be a cut vertex to which multiple bicomps have been joined.
+        // So we cannot simply stop when the external face walk gets back to
+        // startVertex.  We must actually get back to startVertex using its
+        // last arc.  This ensures that we've looped down into all the DFS
+        // subtrees rooted at startVertex and walked their external faces.
+
+        // Since we started the whole external face walk with the first arc
+        // of startVertex, we need to proceed until we reenter startVertex
+        // using its last arc.
+
+    } while (eTwin != gp_GetLastArc(theGraph, startVertex));
+}
+
+/********************************************************************
+ _CheckObstructionIntegrity()
+
+  Returns OK if theGraph is a subgraph of origGraph and it contains
+    an allowed homeomorph, and NOTOK otherwise.
+
+  For core planarity, the allowed homeomorphs are K_5 or K_{3,3}
+
+  Extension modules may overload this method to implement different
+  tests.  For example, K_{3,3} search allows only K_{3,3} and
+  outerplanarity allows only K_4 or K_{2,3}.
+ ********************************************************************/
+
+int _CheckObstructionIntegrity(graphP theGraph, graphP origGraph)
+{
+    if (theGraph == NULL || origGraph == NULL)
+        return NOTOK;
+
+    if (_TestSubgraph(theGraph, origGraph) != TRUE)
+    {
+        return NOTOK;
+    }
+
+    if (theGraph->embedFlags == EMBEDFLAGS_PLANAR)
+        return _CheckKuratowskiSubgraphIntegrity(theGraph);
+
+    else if (theGraph->embedFlags == EMBEDFLAGS_OUTERPLANAR)
+        return _CheckOuterplanarObstructionIntegrity(theGraph);
+
+    return NOTOK;
+}
+
+/********************************************************************
+ _getImageVertices()
+
+ Count the number of vertices of each degree and find the locations of
+ the image vertices (also sometimes called the corners of the obstruction).
+ An image vertex is a vertex of degree three or higher because degree
+ 2 vertices are generally internal to the paths between the image
+ vertices.
+
+ The notable exception is K_{2,3}, an obstruction to outerplanarity.
+ This routine does not know the obstruction it is looking for, so the
+ caller must decide whether there are any degree 2 vertices that should
+ be added to imageVerts.
+
+ Return NOTOK if any vertex of degree 1 or higher than the max is found
+        NOTOK if more than the max number of image vertices is found.
+        Return OK otherwise.
+ ********************************************************************/
+
+int _getImageVertices(graphP theGraph, int *degrees, int maxDegree,
+                      int *imageVerts, int maxNumImageVerts)
+{
+    int K, v, imageVertPos, degree;
+
+    for (degree = 0; degree <= maxDegree; degree++)
+        degrees[degree] = 0;
+
+    for (K = 0; K < maxNumImageVerts; K++)
+        imageVerts[K] = NIL;
+
+    imageVertPos = 0;
+
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+    {
+        degree = gp_GetVertexDegree(theGraph, v);
+        if (degree == 1)
+            return NOTOK;
+        if (degree > maxDegree)
+            return NOTOK;
+
+        degrees[degree]++;
+
+        if (imageVertPos < maxNumImageVerts && degree > 2)
+            imageVerts[imageVertPos++] = v;
+        else if (degree > 2)
+            return NOTOK;
+    }
+
+    return OK;
+}
+
+/********************************************************************
+ _TestForCompleteGraphObstruction()
+
+ theGraph - the graph to test
+ numVerts - the number of image vertices (corners) of the complete
+            graph homeomorph being tested for (e.g. 5 for a K5)
+ degrees -  array of counts of the number of vertices of each degree
+            given by the array index.  Only valid up to numVerts-1
+ imageVerts - the vertices of degree numVerts-1
+
+ This routine tests whether theGraph is a K_{numVerts} homeomorph for
+ numVerts >= 4.
+
+ returns FALSE if numVerts < 4,
+               if theGraph has other than numVerts image vertices
+               if theGraph contains other than degree 2 vertices plus
+                  the image vertices
+               if any pair of image vertices lacks a connecting path
+               if any degree two vertices are not in the connecting paths
+         TRUE  otherwise
+ ********************************************************************/
+
+int _TestForCompleteGraphObstruction(graphP theGraph, int numVerts,
+                                     int *degrees, int *imageVerts)
+{
+    int v, w;
+
+    // We need to make sure we have numVerts vertices of degree numVerts-1
+    // For example, if numVerts==5, then we're looking for a K5, so we
+    // need to have degrees[4] == 5 (5 vertices of degree 4)
+    if (degrees[numVerts - 1] != numVerts)
+        return FALSE;
+
+    // All vertices need to be degree 0, degree 2 or degree numVerts-1
+    if (degrees[0] + degrees[2] + degrees[numVerts - 1] != theGraph->N)
+        return FALSE;
+
+    // We clear all the vertex visited flags
+    _ClearVertexVisitedFlags(theGraph, FALSE);
+
+    // For each pair of image vertices, we test that there is a path
+    // between the two vertices.  If so, the visited flags of the
+    // internal vertices along the path are marked
+    //
+    for (v = 0; v < numVerts; v++)
+        for (w = 0; w < numVerts; w++)
+            if (v != w)
+                if (_TestPath(theGraph, imageVerts[v],
+                              imageVerts[w]) != TRUE)
+                    return FALSE;
+
+    // The visited flags should have marked only degree two vertices,
+    // so for every marked vertex, we subtract one from the count of
+    // the degree two vertices.
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+        if (gp_GetVertexVisited(theGraph, v))
+            degrees[2]--;
+
+    /* If every degree 2 vertex is used in a path between image
+        vertices, then there are no extra pieces of the graph
+        in theGraph.  Specifically, the prior tests identify
+        a K_5 and ensure that nothing else could exist in the
+        graph except extra degree 2 vertices, which must be
+        joined in a cycle so that all are degree 2. */
+
+    return degrees[2] == 0 ? TRUE : FALSE;
+}
+
+/********************************************************************
+ _TestForK33GraphObstruction()
+
+ theGraph - the graph to test
+ degrees -  array of counts of the number of vertices of each degree
+            given by the array index.  Only valid up to numVerts-1
+ imageVerts - the degree 3 vertices of the K3,3 homeomorph
+
+ This routine tests whether theGraph is a K_{3,3} homeomorph.
+
+ returns TRUE if so, FALSE if not
+ ********************************************************************/
+
+int _TestForK33GraphObstruction(graphP theGraph, int *degrees, int *imageVerts)
+{
+    int v, K, imageVertPos, temp, success;
+
+    if (degrees[4] != 0)
+        return FALSE;
+
+    if (degrees[3] != 6)
+        return FALSE;
+
+    /* Partition the six image vertices into two sets of 3
+           (or report failure) */
+
+    for (imageVertPos = 3; imageVertPos < 6; imageVertPos++)
+    {
+        K = 0;
+        success = FALSE;
+        do
+        {
+            if (_TestPath(theGraph, imageVerts[imageVertPos], imageVerts[0]) == TRUE)
+            {
+                success = TRUE;
+                break;
+            }
+
+            K++;
+            temp = imageVerts[K];
+            imageVerts[K] = imageVerts[imageVertPos];
+            imageVerts[imageVertPos] = temp;
+        } while (K < 3);
+
+        if (!success)
+            return FALSE;
+    }
+
+    /* Now test the paths between each of the first three vertices and
+           each of the last three vertices */
+
+    _ClearVertexVisitedFlags(theGraph, FALSE);
+
+    for (imageVertPos = 0; imageVertPos < 3; imageVertPos++)
+        for (K = 3; K < 6; K++)
+            if (_TestPath(theGraph, imageVerts[imageVertPos],
+                          imageVerts[K]) != TRUE)
+                return FALSE;
+
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+        if (gp_GetVertexVisited(theGraph, v))
+            degrees[2]--;
+
+    /* If every degree 2 vertex is used in a path between image
+           vertices, then there are no extra pieces of the graph
+           in theGraph.  Specifically, the prior tests identify
+           a K_{3,3} and ensure that nothing else could exist in the
+           graph except extra degree 2 vertices, which must be
+           joined in a cycle so that all are degree 2. */
+
+    return degrees[2] == 0 ? TRUE : FALSE;
+}
+
+/********************************************************************
+ _CheckKuratowskiSubgraphIntegrity()
+
+ This function checks whether theGraph received as input contains
+ either a K_5 or K_{3,3} homeomorph.
+
+ RETURNS:   OK if theGraph contains a K_5 or K_{3,3} homeomorph,
+            NOTOK otherwise
+
+ To be a K_5 homeomorph, there must be exactly 5 vertices of degree 4,
+ which are called 'image' vertices, and all other vertices must be
+ either degree 2 or degree 0. Furthermore, each of the image vertices
+ must be able to reach all of the other image vertices by a single edge
+ or a path of degree two vertices.
+
+ To be a K_{3,3} homeomorph, there must be exactly 6 vertices of degree 3,
+ which are called 'image' vertices, and all other vertices must be either
+ degree 2 or degree 0.  Furthermore, the image vertices must be connected
+ by edges or paths of degree two vertices in the manner suggested by
+ a K_{3,3}.  To test this, we select an image vertex U, and determine
+ three image vertices X, Y and Z reachable from U by single edges or
+ paths of degree 2 vertices.  Then, we check that the two remaining image
+ vertices, V and W, can also reach X, Y and Z by single edges or paths of
+ degree 2 vertices.
+
+ It is not necessary to check that the paths between the image vertices
+ are distinct since if the paths had a common vertex, then the common
+ vertex would not be degree 2.
+ ********************************************************************/
+
+int _CheckKuratowskiSubgraphIntegrity(graphP theGraph)
+{
+    int degrees[5], imageVerts[6];
+
+    if (_getImageVertices(theGraph, degrees, 4, imageVerts, 6) != OK)
+        return NOTOK;
+
+    if (_TestForCompleteGraphObstruction(theGraph, 5, degrees, imageVerts) == TRUE)
+    {
+        return OK;
+    }
+
+    if (_TestForK33GraphObstruction(theGraph, degrees, imageVerts) == TRUE)
+    {
+        return OK;
+    }
+
+    return NOTOK;
+}
+
+/********************************************************************
+ _TestForK23GraphObstruction()
+
+ theGraph - the graph to test
+ degrees -  array of counts of the number of vertices of each degree
+            given by the array index.  Only valid up to numVerts-1
+ imageVerts - the degree 3 vertices of the K2,3 homeomorph
+
+ This routine tests whether theGraph is a K_{2,3} homeomorph.
+ This routine operates over the results of _getImageVertices()
+
+ returns TRUE if so, FALSE if not
+ ********************************************************************/
+
+int _TestForK23GraphObstruction(graphP theGraph, int *degrees, int *imageVerts)
+{
+    int v, e, imageVertPos;
+
+    // This function operates over the imageVerts results produced by
+    // getImageVertices, which only finds vertices of degree 3 or higher.
+    // So, for a K2,3, there must be exactly two degree 3 vertices and
+    // no degree 4 vertices.
+    if (degrees[3] != 2)
+        return FALSE;
+
+    // For K_{2,3}, the three vertices of degree 2 were not
+    // detected as image vertices because degree 2 vertices
+    // are indistinguishable from the internal path vertices
+    // between the image vertices.  So, here we acknowledge
+    // that more image vertices need to be selected.
+    imageVertPos = 2;
+
+    // Assign the remaining three image vertices to be the
+    // neighbors of the first degree 3 image vertex.
+    // Ensure that each is distinct from the second
+    // degree 3 image vertex. This must be the case because
+    // the two degree 3 image vertices are in the same partition
+    // and hence must not be adjacent.
+
+    e = gp_GetFirstArc(theGraph, imageVerts[0]);
+    while (gp_IsArc(e))
+    {
+        imageVerts[imageVertPos] = gp_GetNeighbor(theGraph, e);
+        if (imageVerts[imageVertPos] == imageVerts[1])
+            return FALSE;
+        imageVertPos++;
+        e = gp_GetNextArc(theGraph, e);
+    }
+
+    /* The paths from imageVerts[0] to each of the new degree 2
+         image vertices are the edges we just traversed.
+         Now test the paths between each of the degree 2 image
+         vertices and imageVerts[1]. */
+
+    _ClearVertexVisitedFlags(theGraph, FALSE);
+
+    for (imageVertPos = 2; imageVertPos < 5; imageVertPos++)
+    {
+        if (_TestPath(theGraph, imageVerts[imageVertPos],
+                      imageVerts[1]) != TRUE)
+            return FALSE;
+
+        gp_SetVertexVisited(theGraph, imageVerts[imageVertPos]);
+    }
+
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+        if (gp_GetVertexVisited(theGraph, v))
+            degrees[2]--;
+
+    /* If every degree 2 vertex is used in a path between the
+         two degree 3 image vertices, then there are no extra
+         pieces of the graph in theGraph.  Specifically, the
+         prior tests identify a K_{2,3} and ensure that nothing
+         else could exist in the graph... except extra degree 2
+         vertices joined in a cycle. We return NOTOK in that case. */
+
+    return degrees[2] == 0 ? TRUE : FALSE;
+}
+
+/********************************************************************
+ _CheckOuterplanarObstructionIntegrity()
+
+ This function checks whether theGraph received as input contains
+ either a K_4 or K_{2,3} homeomorph.
+
+ RETURNS:   OK if theGraph contains a K_4 or K_{2,3} homeomorph,
+            NOTOK otherwise
+
+ To be a K_4 homeomorph, there must be exactly 4 vertices of degree 3,
+ which are called 'image' vertices, and all other vertices must be
+ either degree 2 or degree 0. Furthermore, each of the image vertices
+ must be able to reach all of the other image vertices by a single edge
+ or a path of degree two vertices.
+
+ To be a K_{2,3} homeomorph, there must be exactly 2 vertices of degree 3.
+ All other vertices must be degree 2.  Furthermore, the two degree 3
+ vertices must have three internally disjoint paths connecting them,
+ and each path must contain at least two edges (i.e. at least one internal
+ vertex).  The two degree 3 vertices are image vertices, and an internal
+ vertex from each of the three paths contributes the remaining three
+ image vertices.
+
+ It is not necessary to check that the paths between the degree three
+ vertices are distinct since if the paths had a common vertex, then the
+ common vertex would not be degree 2.
+ ********************************************************************/
+
+int _CheckOuterplanarObstructionIntegrity(graphP theGraph)
+{
+    int degrees[4], imageVerts[5];
+
+    if (_getImageVertices(theGraph, degrees, 3, imageVerts, 5) != OK)
+        return NOTOK;
+
+    if (_TestForCompleteGraphObstruction(theGraph, 4, degrees, imageVerts) == TRUE)
+    {
+        return OK;
+    }
+
+    if (_TestForK23GraphObstruction(theGraph, degrees, imageVerts) == TRUE)
+    {
+        return OK;
+    }
+
+    /* We get here only if we failed to recognize an outerplanarity
+        obstruction, so we return failure */
+
+    return NOTOK;
+}
+
+/********************************************************************
+ _TestPath()
+
+ This function determines whether there exists a path of degree two
+ vertices between two given vertices.  The function marks each
+ degree two vertex as visited.  It returns TRUE if it finds the
+ path and FALSE otherwise.
+ ********************************************************************/
+
+int _TestPath(graphP theGraph, int U, int V)
+{
+    int e = gp_GetFirstArc(theGraph, U);
+
+    while (gp_IsArc(e))
+    {
+        if (_TryPath(theGraph, e, V) == OK)
+        {
+            _MarkPath(theGraph, e);
+            return TRUE;
+        }
+
+        e = gp_GetNextArc(theGraph, e);
+    }
+
+    return FALSE;
+}
+
+/********************************************************************
+ _TryPath()
+
+ This function seeks a given path to a vertex V starting with a
+ given edge out of a starting vertex U.  The path is allowed to
+ contain zero or more degree two vertices, but we stop as soon as
+ a vertex of degree higher than two is encountered.
+ The function returns boolean true if that vertex is V, and
+ boolean false otherwise.
+ ********************************************************************/
+
+int _TryPath(graphP theGraph, int e, int V)
+{
+    int eTwin, nextVertex;
+
+    nextVertex = gp_GetNeighbor(theGraph, e);
+
+    // while nextVertex is strictly degree 2
+    while (gp_IsArc(gp_GetFirstArc(theGraph, nextVertex)) &&
+           gp_IsArc(gp_GetLastArc(theGraph, nextVertex)) &&
+           gp_GetNextArc(theGraph, gp_GetFirstArc(theGraph, nextVertex)) == gp_GetLastArc(theGraph, nextVertex))
+    {
+        eTwin = gp_GetTwinArc(theGraph, e);
+        e = gp_GetFirstArc(theGraph, nextVertex);
+        if (e == eTwin)
+            e = gp_GetLastArc(theGraph, nextVertex);
+
+        nextVertex = gp_GetNeighbor(theGraph, e);
+    }
+
+    return nextVertex == V ? TRUE : FALSE;
+}
+
+/********************************************************************
+ _MarkPath()
+
+ This function sets the visitation flag on all degree two vertices
+ along a path to a vertex V that starts with a given edge out of
+ a starting vertex U.
+ ********************************************************************/
+
+void _MarkPath(graphP theGraph, int e)
+{
+    int eTwin, nextVertex;
+
+    nextVertex = gp_GetNeighbor(theGraph, e);
+    // while nextVertex is strictly degree 2
+    while (gp_IsArc(gp_GetFirstArc(theGraph, nextVertex)) &&
+           gp_IsArc(gp_GetLastArc(theGraph, nextVertex)) &&
+           gp_GetNextArc(theGraph, gp_GetFirstArc(theGraph, nextVertex)) == gp_GetLastArc(theGraph, nextVertex))
+    {
+        gp_SetVertexVisited(theGraph, nextVertex);
+
+        eTwin = gp_GetTwinArc(theGraph, e);
+        e = gp_GetFirstArc(theGraph, nextVertex);
+        if (e == eTwin)
+            e = gp_GetLastArc(theGraph, nextVertex);
+
+        nextVertex = gp_GetNeighbor(theGraph, e);
+    }
+}
+
+/********************************************************************
+ _TestSubgraph()
+ Checks whether theSubgraph is in fact a subgraph of theGraph.
+ For each vertex v in graph G and subgraph H, we iterate the adjacency
+ list of H(v) and, for each neighbor w, we mark G(w).  Then, we
+ iterate the adjacency list of G(v) and unmark each neighbor.  Then,
+ we iterate the adjacency list of H(v) again to ensure that every
+ neighbor w was unmarked.  If there exists a marked neighbor, then
+ H(v) contains an incident edge that is not incident to G(v).
+
+ Returns TRUE if theSubgraph contains only edges from theGraph,
+         FALSE otherwise
+ ********************************************************************/
+
+int _TestSubgraph(graphP theSubgraph, graphP theGraph)
+{
+    int v, e, degreeCount;
+    int Result = TRUE;
+    int invokeSortOnGraph = FALSE;
+    int invokeSortOnSubgraph = FALSE;
+
+    // A subgraph on the same vertices has the same order
+    if (theSubgraph->N != theGraph->N)
+        return FALSE;
+
+    // If the graph is not sorted by DFI, but the alleged subgraph is,
+    // then "unsort" the alleged subgraph so both have the same vertex order
+    if (!(theGraph->internalFlags & FLAGS_SORTEDBYDFI) &&
+        (theSubgraph->internalFlags & FLAGS_SORTEDBYDFI))
+    {
+        invokeSortOnSubgraph = TRUE;
+        gp_SortVertices(theSubgraph);
+    }
+
+    // If the graph is not sorted by DFI, but the alleged subgraph is,
+    // then "unsort" the alleged subgraph so both have the same vertex order
+    if (!(theSubgraph->internalFlags & FLAGS_SORTEDBYDFI) &&
+        (theGraph->internalFlags & FLAGS_SORTEDBYDFI))
+    {
+        invokeSortOnGraph = TRUE;
+        gp_SortVertices(theGraph);
+    }
+
+    /* We clear all visitation flags */
+
+    _ClearVertexVisitedFlags(theGraph, FALSE);
+
+    /* For each vertex... */
+    for (v = gp_GetFirstVertex(theSubgraph), degreeCount = 0; gp_VertexInRange(theSubgraph, v); v++)
+    {
+        /* For each neighbor w in the adjacency list of vertex v in the
+              subgraph, set the visited flag in w in the graph */
+
+        e = gp_GetFirstArc(theSubgraph, v);
+        while (gp_IsArc(e))
+        {
+            if (gp_IsNotVertex(gp_GetNeighbor(theSubgraph, e)))
+            {
+                Result = FALSE;
+                break;
+            }
+            degreeCount++;
+            gp_SetVertexVisited(theGraph, gp_GetNeighbor(theSubgraph, e));
+            e = gp_GetNextArc(theSubgraph, e);
+        }
+
+        if (Result != TRUE)
+            break;
+
+        /* For each neighbor w in the adjacency list of vertex v in the graph,
+              clear the visited flag in w in the graph */
+
+        e = gp_GetFirstArc(theGraph, v);
+        while (gp_IsArc(e))
+        {
+            if (gp_IsNotVertex(gp_GetNeighbor(theGraph, e)))
+            {
+                Result = FALSE;
+                break;
+            }
+            gp_ClearVertexVisited(theGraph, gp_GetNeighbor(theGraph, e));
+            e = gp_GetNextArc(theGraph, e);
+        }
+
+        if (Result != TRUE)
+            break;
+
+        /* For each neighbor w in the adjacency list of vertex v in the subgraph,
+           ensure that the visited flag in w was cleared (otherwise, the "subgraph"
+           would incorrectly contain an adjacency not contained in the ("super") graph) */
+
+        e = gp_GetFirstArc(theSubgraph, v);
+        while (gp_IsArc(e))
+        {
+            if (gp_GetVertexVisited(theGraph, gp_GetNeighbor(theSubgraph, e)))
+            {
+                Result = FALSE;
+                break;
+            }
+            e = gp_GetNextArc(theSubgraph, e);
+        }
+
+        if (Result != TRUE)
+            break;
+    }
+
+    // Restore the DFI sort order of either graph if it had to be reordered at the start
+    if (invokeSortOnSubgraph)
+        gp_SortVertices(theSubgraph);
+    if (invokeSortOnGraph)
+        gp_SortVertices(theGraph);
+
+    // Assuming theSubgraph is a subgraph, we also do an extra integrity check to ensure
+    // proper edge array utilization
+    if (Result == TRUE)
+    {
+        // If the edge count is wrong, we fail the subgraph test in a way that invokes
+        // the name NOTOK so that in debug mode there is more trace on the failure.
+        if (degreeCount != 2 * theSubgraph->M)
+            Result = NOTOK == FALSE ? NOTOK : FALSE;
+    }
+
+    return Result;
+}
-- 
2.43.0


From c8688e5aa7e7d183193461aeabd71d267cba56f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:04 +0000
Subject: [PATCH 43/60] fix: _CheckEmbeddingIntegrity() must reject an
 embedding that has a second copy of an edge

---
 c/graphLib/planarityRelated/graphTests.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/graphLib/planarityRelated/graphTests.c b/c/graphLib/planarityRelated/graphTests.c
index 3397095..79bc1dc 100644
--- a/c/graphLib/planarityRelated/graphTests.c
+++ b/c/graphLib/planarityRelated/graphTests.c
@@ -120,6 +120,10 @@ int _CheckEmbeddingIntegrity(graphP theGraph, graphP origGraph)
     if (_TestSubgraph(origGraph, theGraph) != TRUE)
         return NOTOK;
 
+    // The tests above do not detect a second copy of an edge
+    if (theGraph->M != origGraph->M)
+        return NOTOK;
+
     if (_CheckEmbeddingFacialIntegrity(theGraph) != OK)
         return NOTOK;
 
-- 
2.43.0


From a0dac173cb9800485c8d9917fd036c475174cc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:31 +0000
Subject: [PATCH 44/60] fix: _DrawPlanar_CheckEmbeddingIntegrity() must not
 check a drawing when another algorithm was performed

---
 c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index fdde45d..8c7ddc4 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -533,6 +533,10 @@ int  _DrawPlanar_CheckEmbeddingIntegrity(graphP theGraph, graphP origGraph)
         if (context->functions.fpCheckEmbeddingIntegrity(theGraph, origGraph) != OK)
             return NOTOK;
 
+        // There is no drawing to check if another algorithm was performed
+        if (theGraph->embedFlags != EMBEDFLAGS_DRAWPLANAR)
+            return OK;
+
         return _CheckVisibilityRepresentationIntegrity(context);
     }
 
-- 
2.43.0


From 7c2a16d3328322960011dfe8049c321d7f825713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:31 +0000
Subject: [PATCH 45/60] fix: _DrawPlanar_CheckObstructionIntegrity() must check
 the obstruction of the other algorithms

---
 .../graphDrawPlanar_Extensions.c              | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index 8c7ddc4..42dba5e 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -548,7 +548,25 @@ int  _DrawPlanar_CheckEmbeddingIntegrity(graphP theGraph, graphP origGraph)
 
 int  _DrawPlanar_CheckObstructionIntegrity(graphP theGraph, graphP origGraph)
 {
-     return OK;
+     // No obstruction is isolated when drawing a graph
+     if (theGraph->embedFlags == EMBEDFLAGS_DRAWPLANAR)
+     {
+         return OK;
+     }
+
+     // When not drawing, we let the superclass do the work
+     else
+     {
+        DrawPlanarContext *context = NULL;
+        gp_FindExtension(theGraph, DRAWPLANAR_ID, (void *)&context);
+
+        if (context != NULL)
+        {
+            return context->functions.fpCheckObstructionIntegrity(theGraph, origGraph);
+        }
+     }
+
+     return NOTOK;
 }
 
 /********************************************************************
-- 
2.43.0


From dcb271876f84aac0fe4b568f533ae43e7199a943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:49 +0000
Subject: [PATCH 46/60] fix: gp_Attach...() must not leave the extension in the
 graph when its structures cannot be allocated

---
 c/graphLib/homeomorphSearch/graphK33Search_Extensions.c  | 3 ++-
 c/graphLib/homeomorphSearch/graphK4Search_Extensions.c   | 3 ++-
 c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
index 468f724..a8c69f8 100644
--- a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
@@ -130,7 +130,8 @@ int  gp_AttachK33Search(graphP theGraph)
          if (_K33Search_CreateStructures(context) != OK ||
              _K33Search_InitStructures(context) != OK)
          {
-             _K33Search_FreeContext(context);
+             // The context now belongs to the extension in theGraph
+             gp_RemoveExtension(theGraph, K33SEARCH_ID);
              return NOTOK;
          }
      }
diff --git a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
index 13ff6a0..59fc592 100644
--- a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
@@ -118,7 +118,8 @@ int  gp_AttachK4Search(graphP theGraph)
          if (_K4Search_CreateStructures(context) != OK ||
              _K4Search_InitStructures(context) != OK)
          {
-             _K4Search_FreeContext(context);
+             // The context now belongs to the extension in theGraph
+             gp_RemoveExtension(theGraph, K4SEARCH_ID);
              return NOTOK;
          }
      }
diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index 42dba5e..59183d8 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -143,7 +143,8 @@ int  gp_AttachDrawPlanar(graphP theGraph)
          if (_DrawPlanar_CreateStructures(context) != OK ||
              _DrawPlanar_InitStructures(context) != OK)
          {
-             _DrawPlanar_FreeContext(context);
+             // The context now belongs to the extension in theGraph
+             gp_RemoveExtension(theGraph, DRAWPLANAR_ID);
              return NOTOK;
          }
      }
-- 
2.43.0


From 665e2f8500fd4681546658dea6dd00460e461b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:49 +0000
Subject: [PATCH 47/60] fix: the InitGraph overloads of the extensions must
 report a failure to allocate and leave no partly made graph

---
 c/graphLib/homeomorphSearch/graphK33Search_Extensions.c  | 9 ++++++---
 c/graphLib/homeomorphSearch/graphK4Search_Extensions.c   | 9 ++++++---
 c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c | 8 +++++---
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
index a8c69f8..717abc6 100644
--- a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
@@ -13,6 +13,8 @@ extern int  _SearchForMergeBlocker(graphP theGraph, K33SearchContext *context, i
 extern int  _FindK33WithMergeBlocker(graphP theGraph, K33SearchContext *context, int v, int mergeBlocker);
 extern int  _SearchForK33InBicomp(graphP theGraph, K33SearchContext *context, int v, int R);
 
+extern void _ClearGraph(graphP theGraph);
+
 extern int  _TestForK33GraphObstruction(graphP theGraph, int *degrees, int *imageVerts);
 extern int  _getImageVertices(graphP theGraph, int *degrees, int maxDegree,
                               int *imageVerts, int maxNumImageVerts);
@@ -261,11 +263,12 @@ int  _K33Search_InitGraph(graphP theGraph, int N)
 
 	if (_K33Search_CreateStructures(context) != OK ||
 		_K33Search_InitStructures(context) != OK)
+	{
+		_ClearGraph(theGraph);
 		return NOTOK;
+	}
 
-	context->functions.fpInitGraph(theGraph, N);
-
-    return OK;
+	return context->functions.fpInitGraph(theGraph, N);
 }
 
 /********************************************************************
diff --git a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
index 59fc592..8c9c7c6 100644
--- a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
@@ -11,6 +11,8 @@ See the LICENSE.TXT file for licensing information.
 
 extern int  _SearchForK4InBicomp(graphP theGraph, K4SearchContext *context, int v, int R);
 
+extern void _ClearGraph(graphP theGraph);
+
 extern int _TestForCompleteGraphObstruction(graphP theGraph, int numVerts,
                                             int *degrees, int *imageVerts);
 
@@ -220,11 +222,12 @@ int  _K4Search_InitGraph(graphP theGraph, int N)
 
 	if (_K4Search_CreateStructures(context) != OK ||
 		_K4Search_InitStructures(context) != OK)
+	{
+		_ClearGraph(theGraph);
 		return NOTOK;
+	}
 
-	context->functions.fpInitGraph(theGraph, N);
-
-    return OK;
+	return context->functions.fpInitGraph(theGraph, N);
 }
 
 /********************************************************************
diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index 59183d8..453aeba 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -9,6 +9,7 @@ See the LICENSE.TXT file for licensing information.
 #include "graphDrawPlanar.private.h"
 #include "graphDrawPlanar.h"
 
+extern void _ClearGraph(graphP theGraph);
 extern void _ClearVertexVisitedFlags(graphP theGraph, int);
 
 extern void _CollectDrawingData(DrawPlanarContext *context, int RootVertex, int W, int WPrevLink);
@@ -312,11 +313,12 @@ int  _DrawPlanar_InitGraph(graphP theGraph, int N)
 
 	if (_DrawPlanar_CreateStructures(context) != OK ||
 		_DrawPlanar_InitStructures(context) != OK)
+	{
+		_ClearGraph(theGraph);
 		return NOTOK;
+	}
 
-	context->functions.fpInitGraph(theGraph, N);
-
-    return OK;
+	return context->functions.fpInitGraph(theGraph, N);
 }
 
 /********************************************************************
-- 
2.43.0


From 43b7addfac3a36f7d6010b65724407ea006cf893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:49 +0000
Subject: [PATCH 48/60] fix: the DupContext functions of the extensions must
 not read beyond the edges of the source graph

---
 c/graphLib/homeomorphSearch/graphK33Search_Extensions.c  | 5 +++--
 c/graphLib/homeomorphSearch/graphK4Search_Extensions.c   | 5 +++--
 c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
index 717abc6..9ff6b68 100644
--- a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
@@ -317,7 +317,7 @@ void *_K33Search_DupContext(void *pContext, void *theGraph)
      if (newContext != NULL)
      {
          int VIsize = gp_PrimaryVertexIndexBound((graphP) theGraph);
-         int Esize = gp_EdgeIndexBound((graphP) theGraph);
+         int Esize = gp_EdgeIndexBound(context->theGraph);
 
          *newContext = *context;
 
@@ -327,7 +327,8 @@ void *_K33Search_DupContext(void *pContext, void *theGraph)
          _K33Search_ClearStructures(newContext);
          if (((graphP) theGraph)->N > 0)
          {
-             if (_K33Search_CreateStructures(newContext) != OK)
+             if (_K33Search_CreateStructures(newContext) != OK ||
+                 _K33Search_InitStructures(newContext) != OK)
              {
                  _K33Search_FreeContext(newContext);
                  return NULL;
diff --git a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
index 8c9c7c6..cc0fdce 100644
--- a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
@@ -273,7 +273,7 @@ void *_K4Search_DupContext(void *pContext, void *theGraph)
 
      if (newContext != NULL)
      {
-         int Esize = gp_EdgeIndexBound((graphP) theGraph);
+         int Esize = gp_EdgeIndexBound(context->theGraph);
 
          *newContext = *context;
 
@@ -283,7 +283,8 @@ void *_K4Search_DupContext(void *pContext, void *theGraph)
          _K4Search_ClearStructures(newContext);
          if (((graphP) theGraph)->N > 0)
          {
-             if (_K4Search_CreateStructures(newContext) != OK)
+             if (_K4Search_CreateStructures(newContext) != OK ||
+                 _K4Search_InitStructures(newContext) != OK)
              {
                  _K4Search_FreeContext(newContext);
                  return NULL;
diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index 453aeba..a59441f 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -257,7 +257,7 @@ void *_DrawPlanar_DupContext(void *pContext, void *theGraph)
      if (newContext != NULL)
      {
          int VIsize = gp_PrimaryVertexIndexBound((graphP) theGraph);
-         int Esize = gp_EdgeIndexBound((graphP) theGraph);
+         int Esize = gp_EdgeIndexBound(context->theGraph);
 
          *newContext = *context;
 
@@ -267,7 +267,8 @@ void *_DrawPlanar_DupContext(void *pContext, void *theGraph)
          _DrawPlanar_ClearStructures(newContext);
          if (((graphP) theGraph)->N > 0)
          {
-             if (_DrawPlanar_CreateStructures(newContext) != OK)
+             if (_DrawPlanar_CreateStructures(newContext) != OK ||
+                 _DrawPlanar_InitStructures(newContext) != OK)
              {
                  _DrawPlanar_FreeContext(newContext);
                  return NULL;
-- 
2.43.0


From 531ac53a80d705f42e77bb3f0349bbc276562d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:49 +0000
Subject: [PATCH 49/60] fix: gp_CopyExtensions() must use the function tables
 of the new contexts and report a failure to duplicate

---
 c/graphLib/extensionSystem/graphExtensions.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/extensionSystem/graphExtensions.c b/c/graphLib/extensionSystem/graphExtensions.c
index 1dee8d0..f3824fc 100644
--- a/c/graphLib/extensionSystem/graphExtensions.c
+++ b/c/graphLib/extensionSystem/graphExtensions.c
@@ -487,9 +487,17 @@ int gp_CopyExtensions(graphP dstGraph, graphP srcGraph)
 
         newNext->moduleID = next->moduleID;
         newNext->context = next->dupContext(next->context, dstGraph);
+        if (newNext->context == NULL)
+        {
+            free(newNext);
+            gp_FreeExtensions(dstGraph);
+            return NOTOK;
+        }
         newNext->dupContext = next->dupContext;
         newNext->freeContext = next->freeContext;
-        newNext->functions = next->functions;
+        // The function table is stored in the context, so use the one in the new context
+        newNext->functions = (graphFunctionTableP)((char *)newNext->context +
+                                                   ((char *)next->functions - (char *)next->context));
         newNext->next = NULL;
 
         if (newLast != NULL)
-- 
2.43.0


From cc604e7abcd8692fa7842d91c042c5cb99671c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:32 +0000
Subject: [PATCH 50/60] fix: an absent command letter must be refused, not be
 taken for one of the algorithm choices

---
 c/planarityApp/planarityRandomGraphs.c  | 4 ++--
 c/planarityApp/planaritySpecificGraph.c | 2 +-
 c/planarityApp/planarityTestAllGraphs.c | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/c/planarityApp/planarityRandomGraphs.c b/c/planarityApp/planarityRandomGraphs.c
index ae028f1..93eeb14 100644
--- a/c/planarityApp/planarityRandomGraphs.c
+++ b/c/planarityApp/planarityRandomGraphs.c
@@ -95,7 +95,7 @@ int writeErrorReported_Random=FALSE, writeErrorReported_Embedded=FALSE,
 
 			gp_CopyGraph(origGraph, theGraph);
 
-			if (strchr(GetAlgorithmChoices(), command))
+			if (command != '\0' && strchr(GetAlgorithmChoices(), command))
 			{
 				Result = gp_Embed(theGraph, embedFlags);
 
@@ -405,7 +405,7 @@ char saveEdgeListFormat;
 	Message("Now processing\n");
 	FlushConsole(stdout);
 
-	if (strchr(GetAlgorithmChoices(), command))
+	if (command != '\0' && strchr(GetAlgorithmChoices(), command))
 	{
 		platform_GetTime(start);
 		Result = gp_Embed(theGraph, embedFlags);
diff --git a/c/planarityApp/planaritySpecificGraph.c b/c/planarityApp/planaritySpecificGraph.c
index 64f7279..931c9a7 100644
--- a/c/planarityApp/planaritySpecificGraph.c
+++ b/c/planarityApp/planaritySpecificGraph.c
@@ -72,7 +72,7 @@ int Result = OK;
 		origGraph = gp_DupGraph(theGraph);
 
         // Run the algorithm
-        if (strchr(GetAlgorithmChoices(), command))
+        if (command != '\0' && strchr(GetAlgorithmChoices(), command))
         {
 			switch (command)
 			{
diff --git a/c/planarityApp/planarityTestAllGraphs.c b/c/planarityApp/planarityTestAllGraphs.c
index 07b6361..9246292 100644
--- a/c/planarityApp/planarityTestAllGraphs.c
+++ b/c/planarityApp/planarityTestAllGraphs.c
@@ -59,7 +59,7 @@ int TestAllGraphs(char *commandString, char *infileName, char *outfileName, char
 
 	if (commandString[0] == '-')
 	{
-		if (strchr(GetAlgorithmChoices(), commandString[1]))
+		if (commandString[1] != '\0' && strchr(GetAlgorithmChoices(), commandString[1]))
 		{
 			if (infileName == NULL)
 			{
-- 
2.43.0


From cc8cabf13131d90e997d3ef8e0a2451c65beb43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:32 +0000
Subject: [PATCH 51/60] fix: TransformGraph() must not leak the graph when it
 refuses the output format

---
 c/planarityApp/planarityTransformGraph.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/planarityApp/planarityTransformGraph.c b/c/planarityApp/planarityTransformGraph.c
index 24923f9..cf6a6da 100644
--- a/c/planarityApp/planarityTransformGraph.c
+++ b/c/planarityApp/planarityTransformGraph.c
@@ -42,6 +42,7 @@ int TransformGraph(char *commandString, char *infileName, char *inputStr, int *o
 		else
 		{
 			ErrorMessage("Invalid argument; only -(gam) is allowed.\n");
+			gp_Free(&theGraph);
 			return NOTOK;
 		}
 
-- 
2.43.0


From 542d8eb28eec8045dfa732c713b67164d8c96579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:07 +0000
Subject: [PATCH 52/60] fix: gp_CreateRandomGraphEx() must not add more edges
 than requested while making the planar part

---
 c/graphLib/graphUtils.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index a306f09..f4e3a05 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1278,11 +1278,11 @@ int gp_CreateRandomGraphEx(graphP theGraph, int numEdges)
         {
             if (last != v)
             {
-                if (gp_AddEdge(theGraph, last, 1, c, 1) != OK)
+                if (theGraph->M < M && gp_AddEdge(theGraph, last, 1, c, 1) != OK)
                     return NOTOK;
             }
 
-            if (gp_AddEdge(theGraph, root, 1, c, 1) != OK)
+            if (theGraph->M < M && gp_AddEdge(theGraph, root, 1, c, 1) != OK)
                 return NOTOK;
 
             v = last = c;
@@ -1297,7 +1297,7 @@ int gp_CreateRandomGraphEx(graphP theGraph, int numEdges)
                 p = gp_GetVertexParent(theGraph, v);
                 if (gp_IsVertex(p) && p != root)
                 {
-                    if (gp_AddEdge(theGraph, last, 1, p, 1) != OK)
+                    if (theGraph->M < M && gp_AddEdge(theGraph, last, 1, p, 1) != OK)
                         return NOTOK;
                 }
             }
@@ -1306,24 +1306,24 @@ int gp_CreateRandomGraphEx(graphP theGraph, int numEdges)
             {
                 if (p == root)
                 {
-                    if (gp_AddEdge(theGraph, v, 1, c, 1) != OK)
+                    if (theGraph->M < M && gp_AddEdge(theGraph, v, 1, c, 1) != OK)
                         return NOTOK;
 
                     if (v != last)
                     {
-                        if (gp_AddEdge(theGraph, last, 1, c, 1) != OK)
+                        if (theGraph->M < M && gp_AddEdge(theGraph, last, 1, c, 1) != OK)
                             return NOTOK;
                     }
                 }
                 else
                 {
-                    if (gp_AddEdge(theGraph, last, 1, c, 1) != OK)
+                    if (theGraph->M < M && gp_AddEdge(theGraph, last, 1, c, 1) != OK)
                         return NOTOK;
                 }
 
                 if (p != root)
                 {
-                    if (gp_AddEdge(theGraph, root, 1, c, 1) != OK)
+                    if (theGraph->M < M && gp_AddEdge(theGraph, root, 1, c, 1) != OK)
                         return NOTOK;
                     last = c;
                 }
-- 
2.43.0


From e6fb8ef83da0e13d1639b2ee929ceb570fdb009e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:35 +0000
Subject: [PATCH 53/60] fix: the visibility representation check must test
 vertex positions also when there are no edges

---
 c/graphLib/planarityRelated/graphDrawPlanar.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/c/graphLib/planarityRelated/graphDrawPlanar.c b/c/graphLib/planarityRelated/graphDrawPlanar.c
index 6b8d9e5..88166c0 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar.c
@@ -953,15 +953,13 @@ int _CheckVisibilityRepresentationIntegrity(DrawPlanarContext *context)
 
     for (v = gp_GetFirstVertex(theEmbedding); gp_VertexInRange(theEmbedding, v); v++)
     {
-        if (theEmbedding->M > 0)
-        {
-            if (context->VI[v].pos < 0 ||
-                context->VI[v].pos >= theEmbedding->N ||
-                context->VI[v].start < 0 ||
-                context->VI[v].start > context->VI[v].end ||
-                context->VI[v].end >= theEmbedding->M)
-                return NOTOK;
-        }
+        // Without edges, all vertices are in the one horizontal position 0
+        if (context->VI[v].pos < 0 ||
+            context->VI[v].pos >= theEmbedding->N ||
+            context->VI[v].start < 0 ||
+            context->VI[v].start > context->VI[v].end ||
+            context->VI[v].end >= (theEmbedding->M > 0 ? theEmbedding->M : 1))
+            return NOTOK;
 
         // Has the vertex position been used by a vertex before vertex v?
         if (gp_GetVertexVisited(theEmbedding, context->VI[v].pos + gp_GetFirstVertex(theEmbedding)))
-- 
2.43.0


From b40478bd630b23a82dcdd5a5f6529887de9f61e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:35 +0000
Subject: [PATCH 54/60] fix: a rendered vertex label must not extend beyond the
 vertex

---
 c/graphLib/planarityRelated/graphDrawPlanar.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/graphLib/planarityRelated/graphDrawPlanar.c b/c/graphLib/planarityRelated/graphDrawPlanar.c
index 88166c0..9d5d657 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar.c
@@ -833,6 +833,10 @@ char *_RenderToString(graphP theEmbedding)
             sprintf(numBuffer, "%d", v - zeroBasedVertexOffset);
             if ((unsigned)(context->VI[v].end - context->VI[v].start + 1) >= strlen(numBuffer))
             {
+                // Keep a long label from extending beyond the end of the vertex
+                if (Mid + (int)strlen(numBuffer) - 1 > context->VI[v].end)
+                    Mid = context->VI[v].end - (int)strlen(numBuffer) + 1;
+
                 memcpy((char *)visRep + (2 * Pos) * (M + 1) + Mid, (char *)numBuffer, strlen(numBuffer));
             }
             // If the vertex width is less than the label width, then fail gracefully
-- 
2.43.0


From 3c1c299cfecb6c925d3a70fd96e75a833533572e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:35 +0000
Subject: [PATCH 55/60] fix: rendering must refuse a drawing whose size exceeds
 the range of int

---
 c/graphLib/planarityRelated/graphDrawPlanar.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/planarityRelated/graphDrawPlanar.c b/c/graphLib/planarityRelated/graphDrawPlanar.c
index 9d5d657..111523b 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar.c
@@ -11,6 +11,7 @@ extern int DRAWPLANAR_ID;
 
 #include "../graph.h"
 
+#include <limits.h>
 #include <string.h>
 #include <stdlib.h>
 #include <stdio.h>
@@ -796,9 +797,14 @@ char *_RenderToString(graphP theEmbedding)
         int M = theEmbedding->M;
         int zeroBasedVertexOffset = (theEmbedding->internalFlags & FLAGS_ZEROBASEDIO) ? gp_GetFirstVertex(theEmbedding) : 0;
         int n, m, EsizeOccupied, v, vRange, e, eRange, Mid, Pos;
-        char *visRep = (char *)malloc(sizeof(char) * ((M + 1) * 2 * N + 1));
+        char *visRep = NULL;
         char numBuffer[32];
 
+        // The positions in the rendition are calculated as type int
+        if (((long long)M + 1) * 2 * N >= INT_MAX)
+            return NULL;
+
+        visRep = (char *)malloc(sizeof(char) * ((M + 1) * 2 * N + 1));
         if (visRep == NULL)
             return NULL;
 
-- 
2.43.0


From 6cea2d640ab3c3e02921f48c9410af760e531a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:11 +0000
Subject: [PATCH 56/60] fix: the least ancestor functions must test for a NULL
 graph before using it

---
 c/graphLib/graphDFSUtils.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/graphDFSUtils.c b/c/graphLib/graphDFSUtils.c
index 60f6707..9d8cbdc 100644
--- a/c/graphLib/graphDFSUtils.c
+++ b/c/graphLib/graphDFSUtils.c
@@ -250,12 +250,14 @@ int _SortVertices(graphP theGraph)
 
 int gp_LowpointAndLeastAncestor(graphP theGraph)
 {
-    stackP theStack = theGraph->theStack;
+    stackP theStack = NULL;
     int v, u, uneighbor, e, L, leastAncestor;
 
     if (theGraph == NULL)
         return NOTOK;
 
+    theStack = theGraph->theStack;
+
     if (!(theGraph->internalFlags & FLAGS_DFSNUMBERED))
         if (gp_CreateDFSTree(theGraph) != OK)
             return NOTOK;
@@ -378,12 +380,14 @@ int gp_LowpointAndLeastAncestor(graphP theGraph)
 
 int gp_LeastAncestor(graphP theGraph)
 {
-    stackP theStack = theGraph->theStack;
+    stackP theStack = NULL;
     int v, u, uneighbor, e, leastAncestor;
 
     if (theGraph == NULL)
         return NOTOK;
 
+    theStack = theGraph->theStack;
+
     if (!(theGraph->internalFlags & FLAGS_DFSNUMBERED))
         if (gp_CreateDFSTree(theGraph) != OK)
             return NOTOK;
-- 
2.43.0


From b5ef32acbfd4989b0d8f7a69626cb669a3384abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:11 +0000
Subject: [PATCH 57/60] fix: _CheckEmbeddingFacialIntegrity() must test for a
 NULL graph before using it

---
 c/graphLib/planarityRelated/graphTests.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/planarityRelated/graphTests.c b/c/graphLib/planarityRelated/graphTests.c
index 79bc1dc..dc8cb1e 100644
--- a/c/graphLib/planarityRelated/graphTests.c
+++ b/c/graphLib/planarityRelated/graphTests.c
@@ -164,12 +164,14 @@ int _CheckEmbeddingIntegrity(graphP theGraph, graphP origGraph)
 
 int _CheckEmbeddingFacialIntegrity(graphP theGraph)
 {
-    stackP theStack = theGraph->theStack;
+    stackP theStack = NULL;
     int EsizeOccupied, v, e, eTwin, eStart, eNext, NumFaces, connectedComponents;
 
     if (theGraph == NULL)
         return NOTOK;
 
+    theStack = theGraph->theStack;
+
     /* The stack need only contain 2M entries, one for each edge record. With
             max M at 3N, this amounts to 6N integers of space.  The embedding
             structure already contains this stack, so we just make sure it
-- 
2.43.0


From 536c8ef499725be11b7da30c3980035add713838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:11 +0000
Subject: [PATCH 58/60] fix: gp_InsertEdge() must test for a NULL graph before
 using it

---
 c/graphLib/graphUtils.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index f4e3a05..ac34a9d 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1716,11 +1716,15 @@ int gp_DynamicAddEdge(graphP theGraph, int u, int ulink, int v, int vlink)
 int gp_InsertEdge(graphP theGraph, int u, int e_u, int e_ulink,
                   int v, int e_v, int e_vlink)
 {
-    int vertMax = gp_GetLastVirtualVertex(theGraph),
-        edgeMax = gp_EdgeInUseIndexBound(theGraph) - 1,
-        upos, vpos;
+    int vertMax, edgeMax, upos, vpos;
 
-    if (theGraph == NULL || u < gp_GetFirstVertex(theGraph) || v < gp_GetFirstVertex(theGraph) ||
+    if (theGraph == NULL)
+        return NOTOK;
+
+    vertMax = gp_GetLastVirtualVertex(theGraph);
+    edgeMax = gp_EdgeInUseIndexBound(theGraph) - 1;
+
+    if (u < gp_GetFirstVertex(theGraph) || v < gp_GetFirstVertex(theGraph) ||
         u > vertMax || v > vertMax ||
         e_u > edgeMax || (e_u < gp_GetFirstEdge(theGraph) && gp_IsArc(e_u)) ||
         e_v > edgeMax || (e_v < gp_GetFirstEdge(theGraph) && gp_IsArc(e_v)) ||
-- 
2.43.0


From 0b1b3e4c866e94b0106b59bf016d26e36e7052c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:01 +0000
Subject: [PATCH 59/60] fix: hiding and identifying vertices must not overflow
 the stack of the graph

---
 c/graphLib/graphUtils.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index ac34a9d..cba9fd9 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1977,6 +1977,10 @@ int _HideVertex(graphP theGraph, int vertex)
     int hiddenEdgeStackBottom = sp_GetCurrentSize(theGraph->theStack);
     int e = gp_GetFirstArc(theGraph, vertex);
 
+    // The edges of the vertex plus the seven additional integers must fit on the stack
+    if (sp_GetCapacity(theGraph->theStack) - hiddenEdgeStackBottom < gp_GetVertexDegree(theGraph, vertex) + 7)
+        return NOTOK;
+
     // Cycle through all the edges, pushing and hiding each
     while (gp_IsArc(e))
     {
@@ -2027,6 +2031,10 @@ int _ContractEdge(graphP theGraph, int e)
 
     hiddenEdgeStackBottom = sp_GetCurrentSize(theGraph->theStack);
 
+    // The hidden edges plus the seven additional integers must fit on the stack
+    if (sp_GetCapacity(theGraph->theStack) - hiddenEdgeStackBottom < gp_GetVertexDegree(theGraph, v) + 7)
+        return NOTOK;
+
     eBefore = gp_GetNextArc(theGraph, e);
     sp_Push(theGraph->theStack, e);
     gp_HideEdge(theGraph, e);
@@ -2104,6 +2112,10 @@ int _IdentifyVertices(graphP theGraph, int u, int v, int eBefore)
     // stackBottom for the edges that will be hidden next.
     hiddenEdgeStackBottom = sp_GetCurrentSize(theGraph->theStack);
 
+    // The hidden edges plus the seven additional integers must fit on the stack
+    if (sp_GetCapacity(theGraph->theStack) - hiddenEdgeStackBottom < gp_GetVertexDegree(theGraph, v) + 7)
+        return NOTOK;
+
     // Mark as visited all neighbors of u
     e = gp_GetFirstArc(theGraph, u);
     while (gp_IsArc(e))
-- 
2.43.0


From 7957caeea657ab8ea20896584907774526f4e6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:12 +0000
Subject: [PATCH 60/60] fix: restore the CRLF line endings that earlier fixes
 dropped

---
 c/graphLib/graphUtils.c                  | 5120 +++++++++++-----------
 c/graphLib/io/graphIO.c                  | 2246 +++++-----
 c/graphLib/io/strbuf.c                   |  504 +--
 c/graphLib/planarityRelated/graphTests.c | 1956 ++++-----
 c/planarityApp/planarityUtils.c          | 1296 +++---
 5 files changed, 5561 insertions(+), 5561 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index cba9fd9..9de2db3 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1,2560 +1,2560 @@
-/*
-Copyright (c) 1997-2022, John M. Boyer
-All rights reserved.
-See the LICENSE.TXT file for licensing information.
-*/
-
-#include <stdlib.h>
-
-#include "graphStructures.h"
-#include "graph.h"
-
-/* Imported functions for FUNCTION POINTERS */
-
-extern int _EmbeddingInitialize(graphP theGraph);
-extern int _SortVertices(graphP theGraph);
-extern void _EmbedBackEdgeToDescendant(graphP theGraph, int RootSide, int RootVertex, int W, int WPrevLink);
-extern void _WalkUp(graphP theGraph, int v, int e);
-extern int _WalkDown(graphP theGraph, int v, int RootVertex);
-extern int _MergeBicomps(graphP theGraph, int v, int RootVertex, int W, int WPrevLink);
-extern void _MergeVertex(graphP theGraph, int W, int WPrevLink, int R);
-extern int _HandleBlockedBicomp(graphP theGraph, int v, int RootVertex, int R);
-extern int _HandleInactiveVertex(graphP theGraph, int BicompRoot, int *pW, int *pWPrevLink);
-extern int _MarkDFSPath(graphP theGraph, int ancestor, int descendant);
-extern int _EmbedPostprocess(graphP theGraph, int v, int edgeEmbeddingResult);
-extern int _CheckEmbeddingIntegrity(graphP theGraph, graphP origGraph);
-extern int _CheckObstructionIntegrity(graphP theGraph, graphP origGraph);
-extern int _ReadPostprocess(graphP theGraph, void *extraData, long extraDataSize);
-extern int _WritePostprocess(graphP theGraph, void **pExtraData, long *pExtraDataSize);
-
-/* Internal util functions for FUNCTION POINTERS */
-
-int _HideVertex(graphP theGraph, int vertex);
-void _HideEdge(graphP theGraph, int arcPos);
-void _RestoreEdge(graphP theGraph, int arcPos);
-int _ContractEdge(graphP theGraph, int e);
-int _IdentifyVertices(graphP theGraph, int u, int v, int eBefore);
-int _RestoreVertex(graphP theGraph);
-
-/********************************************************************
- Private functions, except exported within library
- ********************************************************************/
-
-void _InitIsolatorContext(graphP theGraph);
-void _ClearVisitedFlags(graphP theGraph);
-void _ClearVertexVisitedFlags(graphP theGraph, int);
-void _ClearEdgeVisitedFlags(graphP theGraph);
-int _ClearVisitedFlagsInBicomp(graphP theGraph, int BicompRoot);
-int _ClearVisitedFlagsInOtherBicomps(graphP theGraph, int BicompRoot);
-void _ClearVisitedFlagsInUnembeddedEdges(graphP theGraph);
-int _FillVertexVisitedInfoInBicomp(graphP theGraph, int BicompRoot, int FillValue);
-int _ClearVertexTypeInBicomp(graphP theGraph, int BicompRoot);
-
-int _HideInternalEdges(graphP theGraph, int vertex);
-int _RestoreInternalEdges(graphP theGraph, int stackBottom);
-int _RestoreHiddenEdges(graphP theGraph, int stackBottom);
-
-int _GetBicompSize(graphP theGraph, int BicompRoot);
-int _DeleteUnmarkedEdgesInBicomp(graphP theGraph, int BicompRoot);
-int _ClearInvertedFlagsInBicomp(graphP theGraph, int BicompRoot);
-
-void _InitFunctionTable(graphP theGraph);
-
-/********************************************************************
- Private functions.
- ********************************************************************/
-
-void _InitVertices(graphP theGraph);
-void _InitEdges(graphP theGraph);
-
-void _ClearGraph(graphP theGraph);
-
-int _GetRandomNumber(int NMin, int NMax);
-
-/* Private functions for which there are FUNCTION POINTERS */
-
-void _InitVertexRec(graphP theGraph, int v);
-void _InitVertexInfo(graphP theGraph, int v);
-void _InitEdgeRec(graphP theGraph, int e);
-
-int _InitGraph(graphP theGraph, int N);
-void _ReinitializeGraph(graphP theGraph);
-int _EnsureArcCapacity(graphP theGraph, int requiredArcCapacity);
-
-/********************************************************************
- gp_New()
- Constructor for graph object.
- Can create two graphs if restricted to no dynamic memory.
- ********************************************************************/
-
-graphP gp_New(void)
-{
-    graphP theGraph = (graphP)malloc(sizeof(baseGraphStructure));
-
-    if (theGraph != NULL)
-    {
-        theGraph->E = NULL;
-        theGraph->V = NULL;
-        theGraph->VI = NULL;
-
-        theGraph->BicompRootLists = NULL;
-        theGraph->sortedDFSChildLists = NULL;
-        theGraph->theStack = NULL;
-
-        theGraph->extFace = NULL;
-
-        theGraph->edgeHoles = NULL;
-
-        theGraph->extensions = NULL;
-
-        _InitFunctionTable(theGraph);
-
-        _ClearGraph(theGraph);
-    }
-
-    return theGraph;
-}
-
-/********************************************************************
- _InitFunctionTable()
-
- If you add functions to the function table, then they must be
- initialized here, but you must also add the new function pointer
- to the definition of the graphFunctionTable in graphFunctionTable.h
-
- Function headers for the functions used to initialize the table are
- classified at the top of this file as either imported from other
- compilation units (extern) or private to this compilation unit.
- Search for FUNCTION POINTERS in this file to see where to add the
- function header.
- ********************************************************************/
-
-void _InitFunctionTable(graphP theGraph)
-{
-    theGraph->functions.fpEmbeddingInitialize = _EmbeddingInitialize;
-    theGraph->functions.fpEmbedBackEdgeToDescendant = _EmbedBackEdgeToDescendant;
-    theGraph->functions.fpWalkUp = _WalkUp;
-    theGraph->functions.fpWalkDown = _WalkDown;
-    theGraph->functions.fpMergeBicomps = _MergeBicomps;
-    theGraph->functions.fpMergeVertex = _MergeVertex;
-    theGraph->functions.fpHandleBlockedBicomp = _HandleBlockedBicomp;
-    theGraph->functions.fpHandleInactiveVertex = _HandleInactiveVertex;
-    theGraph->functions.fpEmbedPostprocess = _EmbedPostprocess;
-    theGraph->functions.fpMarkDFSPath = _MarkDFSPath;
-    theGraph->functions.fpCheckEmbeddingIntegrity = _CheckEmbeddingIntegrity;
-    theGraph->functions.fpCheckObstructionIntegrity = _CheckObstructionIntegrity;
-
-    theGraph->functions.fpInitGraph = _InitGraph;
-    theGraph->functions.fpReinitializeGraph = _ReinitializeGraph;
-    theGraph->functions.fpEnsureArcCapacity = _EnsureArcCapacity;
-    theGraph->functions.fpSortVertices = _SortVertices;
-
-    theGraph->functions.fpReadPostprocess = _ReadPostprocess;
-    theGraph->functions.fpWritePostprocess = _WritePostprocess;
-
-    theGraph->functions.fpHideEdge = _HideEdge;
-    theGraph->functions.fpRestoreEdge = _RestoreEdge;
-    theGraph->functions.fpHideVertex = _HideVertex;
-    theGraph->functions.fpRestoreVertex = _RestoreVertex;
-    theGraph->functions.fpContractEdge = _ContractEdge;
-    theGraph->functions.fpIdentifyVertices = _IdentifyVertices;
-}
-
-/********************************************************************
- gp_InitGraph()
- Allocates memory for vertex and edge records now that N is known.
- The arcCapacity is set to (2 * DEFAULT_EDGE_LIMIT * N) unless it
-     has already been set by gp_EnsureArcCapacity()
-
- For V, we need 2N vertex records, N for vertices and N for virtual vertices (root copies).
-
- For VI, we need N vertexInfo records.
-
- For E, we need arcCapacity edge records.
-
- The BicompRootLists and sortedDFSChildLists are of size N and start out empty.
-
- The stack, initially empty, is made big enough for a pair of integers
-     per edge record (2 * arcCapacity), or 6N integers if the arcCapacity
-     was set below the default value.
-
- The edgeHoles stack, initially empty, is set to arcCapacity / 2,
-     which is big enough to push every edge (to indicate an edge
-     you only need to indicate one of its two edge records)
-
-  Returns OK on success, NOTOK on all failures.
-          On NOTOK, graph extensions are freed so that the graph is
-          returned to the post-condition of gp_New().
- ********************************************************************/
-
-int gp_InitGraph(graphP theGraph, int N)
-{
-    // valid params check
-    if (theGraph == NULL || N <= 0)
-        return NOTOK;
-
-    // Should not call init a second time; use reinit
-    if (theGraph->N)
-        return NOTOK;
-
-    return theGraph->functions.fpInitGraph(theGraph, N);
-}
-
-int _InitGraph(graphP theGraph, int N)
-{
-    int Vsize, VIsize, Esize, stackSize;
-
-    // Compute the vertex and edge capacities of the graph
-    theGraph->N = N;
-    theGraph->NV = N;
-    theGraph->arcCapacity = theGraph->arcCapacity > 0 ? theGraph->arcCapacity : 2 * DEFAULT_EDGE_LIMIT * N;
-    VIsize = gp_PrimaryVertexIndexBound(theGraph);
-    Vsize = gp_VertexIndexBound(theGraph);
-    Esize = gp_EdgeIndexBound(theGraph);
-
-    // Stack size is 2 integers per arc, or 6 integers per vertex in case of small arcCapacity
-    stackSize = 2 * Esize;
-    stackSize = stackSize < 6 * N ? 6 * N : stackSize;
-
-    // Allocate memory as described above
-    if ((theGraph->V = (vertexRecP)calloc(Vsize, sizeof(vertexRec))) == NULL ||
-        (theGraph->VI = (vertexInfoP)calloc(VIsize, sizeof(vertexInfo))) == NULL ||
-        (theGraph->E = (edgeRecP)calloc(Esize, sizeof(edgeRec))) == NULL ||
-        (theGraph->BicompRootLists = LCNew(VIsize)) == NULL ||
-        (theGraph->sortedDFSChildLists = LCNew(VIsize)) == NULL ||
-        (theGraph->theStack = sp_New(stackSize)) == NULL ||
-        (theGraph->extFace = (extFaceLinkRecP)calloc(Vsize, sizeof(extFaceLinkRec))) == NULL ||
-        (theGraph->edgeHoles = sp_New(Esize / 2)) == NULL ||
-        0)
-    {
-        _ClearGraph(theGraph);
-        return NOTOK;
-    }
-
-    // Initialize memory
-    _InitVertices(theGraph);
-    _InitEdges(theGraph);
-    _InitIsolatorContext(theGraph);
-
-    return OK;
-}
-
-/********************************************************************
- _InitVertices()
- ********************************************************************/
-void _InitVertices(graphP theGraph)
-{
-#if NIL == 0
-    memset(theGraph->V, NIL_CHAR, gp_VertexIndexBound(theGraph) * sizeof(vertexRec));
-    memset(theGraph->VI, NIL_CHAR, gp_PrimaryVertexIndexBound(theGraph) * sizeof(vertexInfo));
-    memset(theGraph->extFace, NIL_CHAR, gp_VertexIndexBound(theGraph) * sizeof(extFaceLinkRec));
-#elif NIL == -1
-    int v;
-
-    memset(theGraph->V, NIL_CHAR, gp_VertexIndexBound(theGraph) * sizeof(vertexRec));
-    memset(theGraph->VI, NIL_CHAR, gp_PrimaryVertexIndexBound(theGraph) * sizeof(vertexInfo));
-    memset(theGraph->extFace, NIL_CHAR, gp_VertexIndexBound(theGraph) * sizeof(extFaceLinkRec));
-
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-        gp_InitVertexFlags(theGraph, v);
-
-#else
-    int v;
-
-    // Initialize primary vertices
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-    {
-        _InitVertexRec(theGraph, v);
-        _InitVertexInfo(theGraph, v);
-        gp_SetExtFaceVertex(theGraph, v, 0, NIL);
-        gp_SetExtFaceVertex(theGraph, v, 1, NIL);
-    }
-
-    // Initialize virtual vertices
-    for (v = gp_GetFirstVirtualVertex(theGraph); gp_VirtualVertexInRange(theGraph, v); v++)
-    {
-        _InitVertexRec(theGraph, v);
-        gp_SetExtFaceVertex(theGraph, v, 0, NIL);
-        gp_SetExtFaceVertex(theGraph, v, 1, NIL);
-    }
-#endif
-}
-
-/********************************************************************
- _InitEdges()
- ********************************************************************/
-void _InitEdges(graphP theGraph)
-{
-#if NIL == 0
-    memset(theGraph->E, NIL_CHAR, gp_EdgeIndexBound(theGraph) * sizeof(edgeRec));
-#elif NIL == -1
-    int e, Esize;
-
-    memset(theGraph->E, NIL_CHAR, gp_EdgeIndexBound(theGraph) * sizeof(edgeRec));
-
-    Esize = gp_EdgeIndexBound(theGraph);
-    for (e = gp_GetFirstEdge(theGraph); e < Esize; e++)
-        gp_InitEdgeFlags(theGraph, e);
-
-#else
-    int e, Esize;
-
-    Esize = gp_EdgeIndexBound(theGraph);
-    for (e = gp_GetFirstEdge(theGraph); e < Esize; e++)
-        _InitEdgeRec(theGraph, e);
-#endif
-}
-
-/********************************************************************
- gp_ReinitializeGraph()
- Reinitializes a graph, restoring it to the state it was in immediately
- after gp_InitGraph() processed it.
- ********************************************************************/
-
-void gp_ReinitializeGraph(graphP theGraph)
-{
-    if (theGraph == NULL || theGraph->N <= 0)
-        return;
-
-    theGraph->functions.fpReinitializeGraph(theGraph);
-}
-
-void _ReinitializeGraph(graphP theGraph)
-{
-    theGraph->M = 0;
-    theGraph->internalFlags = theGraph->embedFlags = 0;
-
-    _InitVertices(theGraph);
-    _InitEdges(theGraph);
-    _InitIsolatorContext(theGraph);
-
-    LCReset(theGraph->BicompRootLists);
-    LCReset(theGraph->sortedDFSChildLists);
-    sp_ClearStack(theGraph->theStack);
-    sp_ClearStack(theGraph->edgeHoles);
-}
-
-/********************************************************************
- gp_GetArcCapacity()
- Returns the arcCapacity of theGraph, which is twice the maximum
- number of edges that can be added to the theGraph.
- ********************************************************************/
-int gp_GetArcCapacity(graphP theGraph)
-{
-    return theGraph->arcCapacity;
-}
-
-/********************************************************************
- gp_EnsureArcCapacity()
- This method ensures that theGraph is or will be capable of storing
- at least requiredArcCapacity edge records.  Two edge records are
- needed per edge.
-
- This method is most performant when invoked immediately after
- gp_New(), since it must only set the arcCapacity and then let
- normal initialization to occur through gp_InitGraph().
-
- This method is also a constant time operation if the graph already
- has at least the requiredArcCapacity, since it will return OK
- without making any structural changes.
-
- This method is generally more performant if it is invoked before
- attaching extensions to the graph.  Some extensions associate
- parallel data with edge records, which is a faster operation if
- the associated data is created and initialized only after the
- proper arcCapacity is specified.
-
- If the graph has been initialized and has a lower arc capacity,
- then the array of edge records is reallocated to satisfy the
- requiredArcCapacity.  The new array contains the old edges and
- edge holes at the same locations, and all newly created edge records
- are initialized.
-
- Also, if the arc capacity must be increased, then the
- arcCapacity member of theGraph is changed and both
- theStack and edgeHoles are expanded (since the sizes of both
- are based on the arc capacity).
-
- Extensions that add to data associated with edges must overload
- this method to ensure capacity in the parallel extension data
- structures.  An extension can return NOTOK if it does not
- support arc capacity expansion.  The extension function will
- not be called if arcCapacity is expanded before the graph is
- initialized, and it is assumed that extensions will allocate
- parallel data structures according to the arc capacity.
-
- If an extension supports arc capacity expansion, then higher
- performance can be obtained by using the method of unhooking
- the initializers for individual edge records before invoking
- the superclass version of fpEnsureArcCapacity().  Ideally,
- application authors should ensure the proper arc capacity before
- attaching extensions to achieve better performance.
-
- Returns NOTOK on failure to reallocate the edge record array to
-         satisfy the requiredArcCapacity, or if the requested
-         capacity is odd
-         OK if reallocation is not required or if reallocation succeeds
- ********************************************************************/
-int gp_EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
-{
-    if (theGraph == NULL || requiredArcCapacity <= 0)
-        return NOTOK;
-
-    // Train callers to only ask for an even number of arcs, since
-    // two are required per edge or directed edge.
-    if (requiredArcCapacity & 1)
-        return NOTOK;
-
-    if (theGraph->arcCapacity >= requiredArcCapacity)
-        return OK;
-
-    // In the special case where gp_InitGraph() has not yet been called,
-    // we can simply set the higher arcCapacity since normal initialization
-    // will then allocate the correct number of edge records.
-    if (theGraph->N == 0)
-    {
-        theGraph->arcCapacity = requiredArcCapacity;
-        return OK;
-    }
-
-    // Try to expand the arc capacity
-    return theGraph->functions.fpEnsureArcCapacity(theGraph, requiredArcCapacity);
-}
-
-int _EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
-{
-    stackP newStack;
-    edgeRecP newE;
-    int e, Esize = gp_EdgeIndexBound(theGraph),
-           newEsize = gp_GetFirstEdge(theGraph) + requiredArcCapacity;
-
-    // If the new size is less than or equal to the old size, then
-    // the graph already has the required arc capacity
-    if (newEsize <= Esize)
-        return OK;
-
-    // Expand theStack
-    if (sp_GetCapacity(theGraph->theStack) < 2 * requiredArcCapacity)
-    {
-        int stackSize = 2 * requiredArcCapacity;
-
-        if (stackSize < 6 * theGraph->N)
-        {
-            // NOTE: Since this routine only makes the stack bigger, this
-            //       calculation is not needed here because we already ensured
-            //       we had stack capacity of the greater of 2*arcs and 6*N
-            //       But we do it for clarity and consistency (e.g. so this rule
-            //       is not forgotten whenever a "SetArcCapacity" method or a
-            //       "reduceArcCapacity" method is added)
-            stackSize = 6 * theGraph->N;
-        }
-
-        if ((newStack = sp_New(stackSize)) == NULL)
-            return NOTOK;
-
-        sp_CopyContent(newStack, theGraph->theStack);
-        sp_Free(&theGraph->theStack);
-        theGraph->theStack = newStack;
-    }
-
-    // Expand edgeHoles
-    if ((newStack = sp_New(requiredArcCapacity / 2)) == NULL)
-    {
-        return NOTOK;
-    }
-
-    sp_CopyContent(newStack, theGraph->edgeHoles);
-    sp_Free(&theGraph->edgeHoles);
-    theGraph->edgeHoles = newStack;
-
-    // Reallocate the edgeRec array to the new size,
-    newE = (edgeRecP)realloc(theGraph->E, newEsize * sizeof(edgeRec));
-    if (newE == NULL)
-        return NOTOK;
-    theGraph->E = newE;
-
-    // Initialize the new edge records
-    for (e = Esize; e < newEsize; e++)
-        _InitEdgeRec(theGraph, e);
-
-    // The new arcCapacity has been successfully achieved
-    theGraph->arcCapacity = requiredArcCapacity;
-    return OK;
-}
-
-/********************************************************************
- _InitVertexRec()
- Sets the fields in a single vertex record to initial values
- ********************************************************************/
-
-void _InitVertexRec(graphP theGraph, int v)
-{
-    gp_SetFirstArc(theGraph, v, NIL);
-    gp_SetLastArc(theGraph, v, NIL);
-    gp_SetVertexIndex(theGraph, v, NIL);
-    gp_InitVertexFlags(theGraph, v);
-}
-
-/********************************************************************
- _InitVertexInfo()
- Sets the fields in a single vertex record to initial values
- ********************************************************************/
-
-void _InitVertexInfo(graphP theGraph, int v)
-{
-    gp_SetVertexParent(theGraph, v, NIL);
-    gp_SetVertexLeastAncestor(theGraph, v, NIL);
-    gp_SetVertexLowpoint(theGraph, v, NIL);
-
-    gp_SetVertexVisitedInfo(theGraph, v, NIL);
-    gp_SetVertexPertinentEdge(theGraph, v, NIL);
-    gp_SetVertexPertinentRootsList(theGraph, v, NIL);
-    gp_SetVertexFuturePertinentChild(theGraph, v, NIL);
-    gp_SetVertexSortedDFSChildList(theGraph, v, NIL);
-    gp_SetVertexFwdArcList(theGraph, v, NIL);
-}
-
-/********************************************************************
- _InitEdgeRec()
- Sets the fields in a single edge record structure to initial values
- ********************************************************************/
-
-void _InitEdgeRec(graphP theGraph, int e)
-{
-    gp_SetNeighbor(theGraph, e, NIL);
-    gp_SetPrevArc(theGraph, e, NIL);
-    gp_SetNextArc(theGraph, e, NIL);
-    gp_InitEdgeFlags(theGraph, e);
-}
-
-/********************************************************************
- _InitIsolatorContext()
- ********************************************************************/
-
-void _InitIsolatorContext(graphP theGraph)
-{
-    isolatorContextP IC = &theGraph->IC;
-
-    IC->minorType = 0;
-    IC->v = IC->r = IC->x = IC->y = IC->w = IC->px = IC->py = IC->z =
-        IC->ux = IC->dx = IC->uy = IC->dy = IC->dw = IC->uz = IC->dz = NIL;
-}
-
-/********************************************************************
- _ClearVisitedFlags()
- ********************************************************************/
-
-void _ClearVisitedFlags(graphP theGraph)
-{
-    _ClearVertexVisitedFlags(theGraph, TRUE);
-    _ClearEdgeVisitedFlags(theGraph);
-}
-
-/********************************************************************
- _ClearVertexVisitedFlags()
- ********************************************************************/
-
-void _ClearVertexVisitedFlags(graphP theGraph, int includeVirtualVertices)
-{
-    int v;
-
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-        gp_ClearVertexVisited(theGraph, v);
-
-    if (includeVirtualVertices)
-        for (v = gp_GetFirstVirtualVertex(theGraph); gp_VirtualVertexInRange(theGraph, v); v++)
-            gp_ClearVertexVisited(theGraph, v);
-}
-
-/********************************************************************
- _ClearEdgeVisitedFlags()
- ********************************************************************/
-
-void _ClearEdgeVisitedFlags(graphP theGraph)
-{
-    int e, EsizeOccupied;
-
-    EsizeOccupied = gp_EdgeInUseIndexBound(theGraph);
-    for (e = gp_GetFirstEdge(theGraph); e < EsizeOccupied; e++)
-        gp_ClearEdgeVisited(theGraph, e);
-}
-
-/********************************************************************
- _ClearVisitedFlagsInBicomp()
-
- Clears the visited flag of the vertices and arcs in the bicomp rooted
- by BicompRoot.
-
- This method uses the stack but preserves whatever may have been
- on it.  In debug mode, it will return NOTOK if the stack overflows.
- This method pushes at most one integer per vertex in the bicomp.
-
- Returns OK on success, NOTOK on implementation failure.
- ********************************************************************/
-
-int _ClearVisitedFlagsInBicomp(graphP theGraph, int BicompRoot)
-{
-    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
-    int v, e;
-
-    sp_Push(theGraph->theStack, BicompRoot);
-    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
-    {
-        sp_Pop(theGraph->theStack, v);
-        gp_ClearVertexVisited(theGraph, v);
-
-        e = gp_GetFirstArc(theGraph, v);
-        while (gp_IsArc(e))
-        {
-            gp_ClearEdgeVisited(theGraph, e);
-
-            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
-                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
-
-            e = gp_GetNextArc(theGraph, e);
-        }
-    }
-    return OK;
-}
-
-/********************************************************************
- _ClearVisitedFlagsInOtherBicomps()
- Typically, we want to clear all visited flags in the graph
- (see _ClearVisitedFlags).  However, in some algorithms this would be
- too costly, so it is necessary to clear the visited flags only
- in one bicomp (see _ClearVisitedFlagsInBicomp), then do some processing
- that sets some of the flags then performs some tests.  If the tests
- are positive, then we can clear all the visited flags in the
- other bicomps (the processing may have set the visited flags in the
- one bicomp in a particular way that we want to retain, so we skip
- the given bicomp).
- ********************************************************************/
-
-int _ClearVisitedFlagsInOtherBicomps(graphP theGraph, int BicompRoot)
-{
-    int R;
-
-    for (R = gp_GetFirstVirtualVertex(theGraph); gp_VirtualVertexInRange(theGraph, R); R++)
-    {
-        if (R != BicompRoot && gp_VirtualVertexInUse(theGraph, R))
-        {
-            if (_ClearVisitedFlagsInBicomp(theGraph, R) != OK)
-                return NOTOK;
-        }
-    }
-    return OK;
-}
-
-/********************************************************************
- _ClearVisitedFlagsInUnembeddedEdges()
- Unembedded edges aren't part of any bicomp yet, but it may be
- necessary to clear their visited flags.
- ********************************************************************/
-
-void _ClearVisitedFlagsInUnembeddedEdges(graphP theGraph)
-{
-    int v, e;
-
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-    {
-        e = gp_GetVertexFwdArcList(theGraph, v);
-        while (gp_IsArc(e))
-        {
-            gp_ClearEdgeVisited(theGraph, e);
-            gp_ClearEdgeVisited(theGraph, gp_GetTwinArc(theGraph, e));
-
-            e = gp_GetNextArc(theGraph, e);
-            if (e == gp_GetVertexFwdArcList(theGraph, v))
-                e = NIL;
-        }
-    }
-}
-
-/****************************************************************************
- _ClearVisitedFlagsOnPath()
- This method clears the visited flags on the vertices and edges on the path
- (u, v, ..., w, x) in which all vertices except the endpoints u and x
- are degree 2.  This method avoids performing more than constant work at the
- path endpoints u and x, so the total work is on the order of the path length.
-
- Returns OK on success, NOTOK on internal failure
- ****************************************************************************/
-
-int _ClearVisitedFlagsOnPath(graphP theGraph, int u, int v, int w, int x)
-{
-    int e, eTwin;
-
-    // We want to exit u from e, but we get eTwin first here in order to avoid
-    // work, in case the degree of u is greater than 2.
-    eTwin = gp_GetNeighborEdgeRecord(theGraph, v, u);
-    if (gp_IsNotArc(eTwin))
-        return NOTOK;
-    e = gp_GetTwinArc(theGraph, eTwin);
-
-    v = u;
-
-    do
-    {
-        // Mark the vertex and the exiting edge
-        gp_ClearVertexVisited(theGraph, v);
-        gp_ClearEdgeVisited(theGraph, e);
-        gp_ClearEdgeVisited(theGraph, eTwin);
-
-        // Get the next vertex
-        v = gp_GetNeighbor(theGraph, e);
-        e = gp_GetNextArcCircular(theGraph, eTwin);
-        eTwin = gp_GetTwinArc(theGraph, e);
-    } while (v != x);
-
-    // Mark the last vertex with 'visited'
-    gp_ClearVertexVisited(theGraph, x);
-
-    return OK;
-}
-
-/****************************************************************************
- _SetVisitedFlagsOnPath()
- This method sets the visited flags on the vertices and edges on the path
- (u, v, ..., w, x) in which all vertices except the endpoints u and x
- are degree 2.  This method avoids performing more than constant work at the
- path endpoints u and x, so the total work is on the order of the path length.
-
- Returns OK on success, NOTOK on internal failure
- ****************************************************************************/
-
-int _SetVisitedFlagsOnPath(graphP theGraph, int u, int v, int w, int x)
-{
-    int e, eTwin;
-
-    // We want to exit u from e, but we get eTwin first here in order to avoid
-    // work, in case the degree of u is greater than 2.
-    eTwin = gp_GetNeighborEdgeRecord(theGraph, v, u);
-    if (gp_IsNotArc(eTwin))
-        return NOTOK;
-    e = gp_GetTwinArc(theGraph, eTwin);
-
-    v = u;
-
-    do
-    {
-        // Mark the vertex and the exiting edge
-        gp_SetVertexVisited(theGraph, v);
-        gp_SetEdgeVisited(theGraph, e);
-        gp_SetEdgeVisited(theGraph, eTwin);
-
-        // Get the next vertex
-        v = gp_GetNeighbor(theGraph, e);
-        e = gp_GetNextArcCircular(theGraph, eTwin);
-        eTwin = gp_GetTwinArc(theGraph, e);
-    } while (v != x);
-
-    // Mark the last vertex with 'visited'
-    gp_SetVertexVisited(theGraph, x);
-
-    return OK;
-}
-
-/********************************************************************
- _FillVertexVisitedInfoInBicomp()
-
- Places the FillValue into the visitedInfo of the non-virtual vertices
- in the bicomp rooted by BicompRoot.
-
- This method uses the stack but preserves whatever may have been
- on it.  In debug mode, it will return NOTOK if the stack overflows.
- This method pushes at most one integer per vertex in the bicomp.
-
- Returns OK on success, NOTOK on implementation failure.
- ********************************************************************/
-
-int _FillVertexVisitedInfoInBicomp(graphP theGraph, int BicompRoot, int FillValue)
-{
-    int v, e;
-    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
-
-    sp_Push(theGraph->theStack, BicompRoot);
-    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
-    {
-        sp_Pop(theGraph->theStack, v);
-
-        if (gp_IsNotVirtualVertex(theGraph, v))
-            gp_SetVertexVisitedInfo(theGraph, v, FillValue);
-
-        e = gp_GetFirstArc(theGraph, v);
-        while (gp_IsArc(e))
-        {
-            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
-                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
-
-            e = gp_GetNextArc(theGraph, e);
-        }
-    }
-    return OK;
-}
-
-/********************************************************************
- _ClearVertexTypeInBicomp()
-
- Clears the 'obstruction type' bits for each vertex in the bicomp
- rooted by BicompRoot.
-
- This method uses the stack but preserves whatever may have been
- on it.  In debug mode, it will return NOTOK if the stack overflows.
- This method pushes at most one integer per vertex in the bicomp.
-
- Returns OK on success, NOTOK on implementation failure.
- ********************************************************************/
-
-int _ClearVertexTypeInBicomp(graphP theGraph, int BicompRoot)
-{
-    int V, e;
-    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
-
-    sp_Push(theGraph->theStack, BicompRoot);
-    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
-    {
-        sp_Pop(theGraph->theStack, V);
-        gp_ClearVertexObstructionType(theGraph, V);
-
-        e = gp_GetFirstArc(theGraph, V);
-        while (gp_IsArc(e))
-        {
-            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
-                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
-
-            e = gp_GetNextArc(theGraph, e);
-        }
-    }
-    return OK;
-}
-
-/********************************************************************
- _ClearGraph()
- Clears all memory used by the graph, restoring it to the state it
- was in immediately after gp_New() created it.
- ********************************************************************/
-
-void _ClearGraph(graphP theGraph)
-{
-    if (theGraph->V != NULL)
-    {
-        free(theGraph->V);
-        theGraph->V = NULL;
-    }
-    if (theGraph->VI != NULL)
-    {
-        free(theGraph->VI);
-        theGraph->VI = NULL;
-    }
-    if (theGraph->E != NULL)
-    {
-        free(theGraph->E);
-        theGraph->E = NULL;
-    }
-
-    theGraph->N = 0;
-    theGraph->NV = 0;
-    theGraph->M = 0;
-    theGraph->arcCapacity = 0;
-    theGraph->internalFlags = 0;
-    theGraph->embedFlags = 0;
-
-    _InitIsolatorContext(theGraph);
-
-    LCFree(&theGraph->BicompRootLists);
-    LCFree(&theGraph->sortedDFSChildLists);
-
-    sp_Free(&theGraph->theStack);
-
-    if (theGraph->extFace != NULL)
-    {
-        free(theGraph->extFace);
-        theGraph->extFace = NULL;
-    }
-
-    sp_Free(&theGraph->edgeHoles);
-
-    gp_FreeExtensions(theGraph);
-}
-
-/********************************************************************
- gp_Free()
- Frees G and V, then the graph record.  Then sets your pointer to NULL
- (so you must pass the address of your pointer).
- ********************************************************************/
-
-void gp_Free(graphP *pGraph)
-{
-    if (pGraph == NULL)
-        return;
-    if (*pGraph == NULL)
-        return;
-
-    _ClearGraph(*pGraph);
-
-    free(*pGraph);
-    *pGraph = NULL;
-}
-
-/********************************************************************
- gp_CopyAdjacencyLists()
- Copies the adjacency lists from the srcGraph to the dstGraph.
- This method intentionally copies only the adjacency lists of the
- first N vertices, so the adjacency lists of virtual vertices are
- excluded (unless the caller temporarily resets the value of N to
- include NV).
-
- Returns OK on success, NOTOK on failures, e.g. if the two graphs
- have different orders N or if the arcCapacity of dstGraph cannot
- be increased to match that of srcGraph.
- ********************************************************************/
-int gp_CopyAdjacencyLists(graphP dstGraph, graphP srcGraph)
-{
-    int v, e, EsizeOccupied;
-
-    if (dstGraph == NULL || srcGraph == NULL)
-        return NOTOK;
-
-    if (dstGraph->N != srcGraph->N || dstGraph->N == 0)
-        return NOTOK;
-
-    if (gp_EnsureArcCapacity(dstGraph, srcGraph->arcCapacity) != OK)
-        return NOTOK;
-
-    // Copy the links that hook each owning vertex to its adjacency list
-    for (v = gp_GetFirstVertex(srcGraph); gp_VertexInRange(srcGraph, v); v++)
-    {
-        gp_SetFirstArc(dstGraph, v, gp_GetFirstArc(srcGraph, v));
-        gp_SetLastArc(dstGraph, v, gp_GetLastArc(srcGraph, v));
-    }
-
-    // Copy the adjacency links and neighbor pointers for each arc
-    EsizeOccupied = gp_EdgeInUseIndexBound(srcGraph);
-    for (e = gp_GetFirstEdge(theGraph); e < EsizeOccupied; e++)
-    {
-        gp_SetNeighbor(dstGraph, e, gp_GetNeighbor(srcGraph, e));
-        gp_SetNextArc(dstGraph, e, gp_GetNextArc(srcGraph, e));
-        gp_SetPrevArc(dstGraph, e, gp_GetPrevArc(srcGraph, e));
-    }
-
-    // Tell the dstGraph how many edges it now has and where the edge holes are
-    dstGraph->M = srcGraph->M;
-    sp_Copy(dstGraph->edgeHoles, srcGraph->edgeHoles);
-
-    return OK;
-}
-
-/********************************************************************
- gp_CopyGraph()
- Copies the content of the srcGraph into the dstGraph.  The dstGraph
- must have been previously initialized with the same number of
- vertices as the srcGraph (e.g. gp_InitGraph(dstGraph, srcGraph->N).
-
- Returns OK for success, NOTOK for failure.
- ********************************************************************/
-
-int gp_CopyGraph(graphP dstGraph, graphP srcGraph)
-{
-    int v, e, Esize;
-
-    // Parameter checks
-    if (dstGraph == NULL || srcGraph == NULL)
-    {
-        return NOTOK;
-    }
-
-    // The graphs need to be the same order and initialized
-    if (dstGraph->N != srcGraph->N || dstGraph->N == 0)
-    {
-        return NOTOK;
-    }
-
-    // Ensure dstGraph has the required arc capacity; this expands
-    // dstGraph if needed, but does not contract.  An error is only
-    // returned if the expansion fails.
-    if (gp_EnsureArcCapacity(dstGraph, srcGraph->arcCapacity) != OK)
-    {
-        return NOTOK;
-    }
-
-    // Copy the primary vertices.  Augmentations to vertices created
-    // by extensions are copied below by gp_CopyExtensions()
-    for (v = gp_GetFirstVertex(srcGraph); gp_VertexInRange(srcGraph, v); v++)
-    {
-        gp_CopyVertexRec(dstGraph, v, srcGraph, v);
-        gp_CopyVertexInfo(dstGraph, v, srcGraph, v);
-        gp_SetExtFaceVertex(dstGraph, v, 0, gp_GetExtFaceVertex(srcGraph, v, 0));
-        gp_SetExtFaceVertex(dstGraph, v, 1, gp_GetExtFaceVertex(srcGraph, v, 1));
-    }
-
-    // Copy the virtual vertices.  Augmentations to virtual vertices created
-    // by extensions are copied below by gp_CopyExtensions()
-    for (v = gp_GetFirstVirtualVertex(srcGraph); gp_VirtualVertexInRange(srcGraph, v); v++)
-    {
-        gp_CopyVertexRec(dstGraph, v, srcGraph, v);
-        gp_SetExtFaceVertex(dstGraph, v, 0, gp_GetExtFaceVertex(srcGraph, v, 0));
-        gp_SetExtFaceVertex(dstGraph, v, 1, gp_GetExtFaceVertex(srcGraph, v, 1));
-    }
-
-    // Copy the basic EdgeRec structures.  Augmentations to the edgeRec structure
-    // created by extensions are copied below by gp_CopyExtensions()
-    Esize = gp_EdgeIndexBound(srcGraph);
-    for (e = gp_GetFirstEdge(theGraph); e < Esize; e++)
-        gp_CopyEdgeRec(dstGraph, e, srcGraph, e);
-
-    // Clear the edge records of dstGraph that srcGraph does not have
-    for (; e < gp_EdgeIndexBound(dstGraph); e++)
-        _InitEdgeRec(dstGraph, e);
-
-    // Give the dstGraph the same size and intrinsic properties
-    dstGraph->N = srcGraph->N;
-    dstGraph->NV = srcGraph->NV;
-    dstGraph->M = srcGraph->M;
-    dstGraph->internalFlags = srcGraph->internalFlags;
-    dstGraph->embedFlags = srcGraph->embedFlags;
-
-    dstGraph->IC = srcGraph->IC;
-
-    LCCopy(dstGraph->BicompRootLists, srcGraph->BicompRootLists);
-    LCCopy(dstGraph->sortedDFSChildLists, srcGraph->sortedDFSChildLists);
-    if (sp_Copy(dstGraph->theStack, srcGraph->theStack) != OK ||
-        sp_Copy(dstGraph->edgeHoles, srcGraph->edgeHoles) != OK)
-    {
-        return NOTOK;
-    }
-
-    // Copy the set of extensions, which includes copying the
-    // extension data as well as the function overload tables
-    if (gp_CopyExtensions(dstGraph, srcGraph) != OK)
-        return NOTOK;
-
-    // Copy the graph's function table, which has the pointers to
-    // the most recent extension overloads of each function (or
-    // the original function pointer if a particular function has
-    // not been overloaded).
-    // This must be done after copying the extension because the
-    // first step of copying the extensions is to delete the
-    // dstGraph extensions, which clears its function table.
-    // Therefore, no good to assign the srcGraph functions *before*
-    // copying the extensions because the assignment would be wiped out
-    // This, in turn, means that the DupContext function of an extension
-    // *cannot* depend on any extension function overloads; the extension
-    // must directly invoke extension functions only.
-    dstGraph->functions = srcGraph->functions;
-
-    return OK;
-}
-
-/********************************************************************
- gp_DupGraph()
- ********************************************************************/
-
-graphP gp_DupGraph(graphP theGraph)
-{
-    graphP result;
-
-    if ((result = gp_New()) == NULL)
-        return NULL;
-
-    if (gp_InitGraph(result, theGraph->N) != OK ||
-        gp_CopyGraph(result, theGraph) != OK)
-    {
-        gp_Free(&result);
-        return NULL;
-    }
-
-    return result;
-}
-
-/********************************************************************
- gp_CreateRandomGraph()
-
- Creates a randomly generated graph.  First a tree is created by
- connecting each vertex to some successor.  Then a random number of
- additional random edges are added.  If an edge already exists, then
- we retry until a non-existent edge is picked.
-
- This function assumes the caller has already called srand().
-
- Returns OK on success, NOTOK on failure
- ********************************************************************/
-
-int gp_CreateRandomGraph(graphP theGraph)
-{
-    int N, M, u, v, m;
-
-    N = theGraph->N;
-
-    /* Generate a random tree; note that this method virtually guarantees
-            that the graph will be renumbered, but it is linear time.
-            Also, we are not generating the DFS tree but rather a tree
-            that simply ensures the resulting random graph is connected. */
-
-    for (v = gp_GetFirstVertex(theGraph) + 1; gp_VertexInRange(theGraph, v); v++)
-    {
-        u = _GetRandomNumber(gp_GetFirstVertex(theGraph), v - 1);
-        if (gp_AddEdge(theGraph, u, 0, v, 0) != OK)
-            return NOTOK;
-    }
-
-    /* Generate a random number of additional edges
-            (actually, leave open a small chance that no
-            additional edges will be added). */
-
-    M = _GetRandomNumber(7 * N / 8, theGraph->arcCapacity / 2);
-
-    if (M > (long long)N * (N - 1) / 2)
-        M = (int)((long long)N * (N - 1) / 2);
-
-    for (m = N - 1; m < M; m++)
-    {
-        u = _GetRandomNumber(gp_GetFirstVertex(theGraph), gp_GetLastVertex(theGraph) - 1);
-        v = _GetRandomNumber(u + 1, gp_GetLastVertex(theGraph));
-
-        // If the edge (u,v) exists, decrement eIndex to try again
-        if (gp_IsNeighbor(theGraph, u, v))
-            m--;
-
-        // If the edge (u,v) doesn't exist, add it
-        else
-        {
-            if (gp_AddEdge(theGraph, u, 0, v, 0) != OK)
-                return NOTOK;
-        }
-    }
-
-    return OK;
-}
-
-/********************************************************************
- _GetRandomNumber()
- This function generates a random number between NMin and NMax
- inclusive.  It assumes that the caller has called srand().
- It calls rand(), but before truncating to the proper range,
- it adds the high bits of the rand() result into the low bits.
- The result of this is that the randomness appearing in the
- truncated bits also has an affect on the non-truncated bits.
- ********************************************************************/
-
-int _GetRandomNumber(int NMin, int NMax)
-{
-    unsigned int N = rand();
-
-    if (NMax < NMin)
-        return NMin;
-
-    N += ((N & 0xFFFF0000) >> 16);
-    N += ((N & 0x0000FF00) >> 8);
-    N &= 0x7FFFFFF;
-    N %= (NMax - NMin + 1);
-    return (int)N + NMin;
-}
-
-/********************************************************************
- _getUnprocessedChild()
- Support routine for gp_Create RandomGraphEx(), this function
- obtains a child of the given vertex in the randomly generated
- tree that has not yet been processed.  NIL is returned if the
- given vertex has no unprocessed children
-
- ********************************************************************/
-
-int _getUnprocessedChild(graphP theGraph, int parent)
-{
-    int e = gp_GetFirstArc(theGraph, parent);
-    int eTwin = gp_GetTwinArc(theGraph, e);
-    int child = gp_GetNeighbor(theGraph, e);
-
-    // The tree edges were added to the beginning of the adjacency list,
-    // and we move processed tree edge records to the end of the list,
-    // so if the immediate next arc (edge record) is not a tree edge
-    // then we return NIL because the vertex has no remaining
-    // unprocessed children
-    if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_NOTDEFINED)
-        return NIL;
-
-    // If the child has already been processed, then all children
-    // have been pushed to the end of the list, and we have just
-    // encountered the first child we processed, so there are no
-    // remaining unprocessed children */
-    if (gp_GetEdgeVisited(theGraph, e))
-        return NIL;
-
-    // We have found an edge leading to an unprocessed child, so
-    // we mark it as processed so that it doesn't get returned
-    // again in future iterations.
-    gp_SetEdgeVisited(theGraph, e);
-    gp_SetEdgeVisited(theGraph, eTwin);
-
-    // Now we move the edge record in the parent vertex to the end
-    // of the adjacency list of that vertex.
-    gp_MoveArcToLast(theGraph, parent, e);
-
-    // Now we move the edge record in the child vertex to the
-    // end of the adjacency list of the child.
-    gp_MoveArcToLast(theGraph, child, eTwin);
-
-    // Now we set the child's parent and return the child.
-    gp_SetVertexParent(theGraph, child, parent);
-
-    return child;
-}
-
-/********************************************************************
- _hasUnprocessedChild()
- Support routine for gp_Create RandomGraphEx(), this function
- obtains a child of the given vertex in the randomly generated
- tree that has not yet been processed.  False (0) is returned
- unless the given vertex has an unprocessed child.
- ********************************************************************/
-
-int _hasUnprocessedChild(graphP theGraph, int parent)
-{
-    int e = gp_GetFirstArc(theGraph, parent);
-
-    if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_NOTDEFINED)
-        return 0;
-
-    if (gp_GetEdgeVisited(theGraph, e))
-        return 0;
-
-    return 1;
-}
-
-/********************************************************************
- gp_CreateRandomGraphEx()
- Given a graph structure with a pre-specified number of vertices N,
- this function creates a graph with the specified number of edges.
-
- If numEdges <= 3N-6, then the graph generated is planar.  If
- numEdges is larger, then a maximal planar graph is generated, then
- (numEdges - 3N + 6) additional random edges are added.
-
- This function assumes the caller has already called srand().
- ********************************************************************/
-
-int gp_CreateRandomGraphEx(graphP theGraph, int numEdges)
-{
-    int N, arc, M, root, v, c, p, last, u, e, EsizeOccupied;
-
-    N = theGraph->N;
-
-    if (numEdges > theGraph->arcCapacity / 2)
-        numEdges = theGraph->arcCapacity / 2;
-
-    if (numEdges > (long long)N * (N - 1) / 2)
-        numEdges = (int)((long long)N * (N - 1) / 2);
-
-    /* Generate a random tree. */
-
-    for (v = gp_GetFirstVertex(theGraph) + 1; gp_VertexInRange(theGraph, v); v++)
-    {
-        u = _GetRandomNumber(gp_GetFirstVertex(theGraph), v - 1);
-        if (gp_AddEdge(theGraph, u, 0, v, 0) != OK)
-            return NOTOK;
-
-        else
-        {
-            arc = gp_GetNeighborEdgeRecord(theGraph, u, v);
-            gp_SetEdgeType(theGraph, arc, EDGE_TYPE_RANDOMTREE);
-            gp_SetEdgeType(theGraph, gp_GetTwinArc(theGraph, arc), EDGE_TYPE_RANDOMTREE);
-            gp_ClearEdgeVisited(theGraph, arc);
-            gp_ClearEdgeVisited(theGraph, gp_GetTwinArc(theGraph, arc));
-        }
-    }
-
-    /* Add edges up to the limit or until the graph is maximal planar. */
-
-    M = numEdges <= 3 * N - 6 ? numEdges : 3 * N - 6;
-
-    root = gp_GetFirstVertex(theGraph);
-    v = last = _getUnprocessedChild(theGraph, root);
-
-    while (v != root && theGraph->M < M)
-    {
-        c = _getUnprocessedChild(theGraph, v);
-
-        if (gp_IsVertex(c))
-        {
-            if (last != v)
-            {
-                if (theGraph->M < M && gp_AddEdge(theGraph, last, 1, c, 1) != OK)
-                    return NOTOK;
-            }
-
-            if (theGraph->M < M && gp_AddEdge(theGraph, root, 1, c, 1) != OK)
-                return NOTOK;
-
-            v = last = c;
-        }
-
-        else
-        {
-            p = gp_GetVertexParent(theGraph, v);
-            while (gp_IsVertex(p) && gp_IsNotVertex(c = _getUnprocessedChild(theGraph, p)))
-            {
-                v = p;
-                p = gp_GetVertexParent(theGraph, v);
-                if (gp_IsVertex(p) && p != root)
-                {
-                    if (theGraph->M < M && gp_AddEdge(theGraph, last, 1, p, 1) != OK)
-                        return NOTOK;
-                }
-            }
-
-            if (gp_IsVertex(p))
-            {
-                if (p == root)
-                {
-                    if (theGraph->M < M && gp_AddEdge(theGraph, v, 1, c, 1) != OK)
-                        return NOTOK;
-
-                    if (v != last)
-                    {
-                        if (theGraph->M < M && gp_AddEdge(theGraph, last, 1, c, 1) != OK)
-                            return NOTOK;
-                    }
-                }
-                else
-                {
-                    if (theGraph->M < M && gp_AddEdge(theGraph, last, 1, c, 1) != OK)
-                        return NOTOK;
-                }
-
-                if (p != root)
-                {
-                    if (theGraph->M < M && gp_AddEdge(theGraph, root, 1, c, 1) != OK)
-                        return NOTOK;
-                    last = c;
-                }
-
-                v = c;
-            }
-        }
-    }
-
-    /* Add additional edges if the limit has not yet been reached. */
-
-    while (theGraph->M < numEdges)
-    {
-        u = _GetRandomNumber(gp_GetFirstVertex(theGraph), gp_GetLastVertex(theGraph));
-        v = _GetRandomNumber(gp_GetFirstVertex(theGraph), gp_GetLastVertex(theGraph));
-
-        if (u != v && !gp_IsNeighbor(theGraph, u, v))
-            if (gp_AddEdge(theGraph, u, 0, v, 0) != OK)
-                return NOTOK;
-    }
-
-    /* Clear the edge types back to 'unknown' */
-
-    EsizeOccupied = gp_EdgeInUseIndexBound(theGraph);
-    for (e = 0; e < EsizeOccupied; e++)
-    {
-        gp_ClearEdgeType(theGraph, e);
-        gp_ClearEdgeVisited(theGraph, e);
-    }
-
-    /* Put all DFSParent indicators back to NIL */
-
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-        gp_SetVertexParent(theGraph, v, NIL);
-
-    return OK;
-}
-
-/********************************************************************
- gp_IsNeighbor()
-
- Checks whether v is already in u's adjacency list, i.e. does the arc
- u -> v exist.
- If there is an edge record for v in u's list, but it is marked INONLY,
- then it represents the arc v->u but not u->v, so it is ignored.
-
- Returns TRUE or FALSE.
- ********************************************************************/
-
-int gp_IsNeighbor(graphP theGraph, int u, int v)
-{
-    int e = gp_GetFirstArc(theGraph, u);
-
-    while (gp_IsArc(e))
-    {
-        if (gp_GetNeighbor(theGraph, e) == v)
-        {
-            if (gp_GetDirection(theGraph, e) != EDGEFLAG_DIRECTION_INONLY)
-                return TRUE;
-        }
-        e = gp_GetNextArc(theGraph, e);
-    }
-    return FALSE;
-}
-
-/********************************************************************
- gp_GetNeighborEdgeRecord()
- Searches the adjacency list of u to obtains the edge record for v.
-
- NOTE: The caller should check whether the edge record is INONLY;
-       This method returns any edge record representing a connection
-       between vertices u and v, so this method can return an
-       edge record even if gp_IsNeighbor(theGraph, u, v) is false (0).
-       To filter out INONLY edge records, use gp_GetDirection() on
-       the edge record returned by this method.
-
- Returns NIL if there is no edge record indicating v in u's adjacency
-         list, or the edge record location otherwise.
- ********************************************************************/
-
-int gp_GetNeighborEdgeRecord(graphP theGraph, int u, int v)
-{
-    int e;
-
-    if (gp_IsNotVertex(u) || gp_IsNotVertex(v))
-        return NIL + NOTOK - NOTOK;
-
-    e = gp_GetFirstArc(theGraph, u);
-    while (gp_IsArc(e))
-    {
-        if (gp_GetNeighbor(theGraph, e) == v)
-            return e;
-
-        e = gp_GetNextArc(theGraph, e);
-    }
-    return NIL;
-}
-
-/********************************************************************
- gp_GetVertexDegree()
-
- Counts the number of edge records in the adjacency list of a given
- vertex V.
-
- Note: For digraphs, this method returns the total degree of the
-       vertex, including outward arcs (undirected and OUTONLY)
-       as well as INONLY arcs.  Other functions are defined to get
-       the in-degree or out-degree of the vertex.
-
- Note: This function determines the degree by counting.  An extension
-       could cache the degree value of each vertex and update the
-       cached value as edges are added and deleted.
- ********************************************************************/
-
-int gp_GetVertexDegree(graphP theGraph, int v)
-{
-    int e, degree;
-
-    if (theGraph == NULL || gp_IsNotVertex(v))
-        return 0 + NOTOK - NOTOK;
-
-    degree = 0;
-
-    e = gp_GetFirstArc(theGraph, v);
-    while (gp_IsArc(e))
-    {
-        degree++;
-        e = gp_GetNextArc(theGraph, e);
-    }
-
-    return degree;
-}
-
-/********************************************************************
- gp_GetVertexInDegree()
-
- Counts the number of edge records in the adjacency list of a given
- vertex V that represent arcs from another vertex into V.
- This includes undirected edges and INONLY arcs, so it only excludes
- edges records that are marked as OUTONLY arcs.
-
- Note: This function determines the in-degree by counting.  An extension
-       could cache the in-degree value of each vertex and update the
-       cached value as edges are added and deleted.
- ********************************************************************/
-
-int gp_GetVertexInDegree(graphP theGraph, int v)
-{
-    int e, degree;
-
-    if (theGraph == NULL || gp_IsNotVertex(v))
-        return 0 + NOTOK - NOTOK;
-
-    degree = 0;
-
-    e = gp_GetFirstArc(theGraph, v);
-    while (gp_IsArc(e))
-    {
-        if (gp_GetDirection(theGraph, e) != EDGEFLAG_DIRECTION_OUTONLY)
-            degree++;
-        e = gp_GetNextArc(theGraph, e);
-    }
-
-    return degree;
-}
-
-/********************************************************************
- gp_GetVertexOutDegree()
-
- Counts the number of edge records in the adjacency list of a given
- vertex V that represent arcs from V to another vertex.
- This includes undirected edges and OUTONLY arcs, so it only excludes
- edges records that are marked as INONLY arcs.
-
- Note: This function determines the out-degree by counting.  An extension
-       could cache the out-degree value of each vertex and update the
-       cached value as edges are added and deleted.
- ********************************************************************/
-
-int gp_GetVertexOutDegree(graphP theGraph, int v)
-{
-    int e, degree;
-
-    if (theGraph == NULL || gp_IsNotVertex(v))
-        return 0 + NOTOK - NOTOK;
-
-    degree = 0;
-
-    e = gp_GetFirstArc(theGraph, v);
-    while (gp_IsArc(e))
-    {
-        if (gp_GetDirection(theGraph, e) != EDGEFLAG_DIRECTION_INONLY)
-            degree++;
-        e = gp_GetNextArc(theGraph, e);
-    }
-
-    return degree;
-}
-
-/********************************************************************
- gp_AttachArc()
-
- This routine adds newArc into v's adjacency list at a position
- adjacent to the edge record for e, either before or after e,
- depending on link.  If e is not an arc (e.g. if e is NIL),
- then link is assumed to indicate whether the new arc is to be
- placed at the beginning or end of v's adjacency list.
-
- NOTE: The caller can pass NIL for v if e is not NIL, since the
-       vertex is implied (gp_GetNeighbor(theGraph, eTwin))
-
- The arc is assumed to already exist in the data structure (i.e.
- the storage of edges), as only a whole edge (two arcs) can be
- inserted into or deleted from the data structure.  Hence there is
- no such thing as gp_InsertArc() or gp_DeleteArc().
-
- See also gp_DetachArc(), gp_InsertEdge() and gp_DeleteEdge()
- ********************************************************************/
-
-void gp_AttachArc(graphP theGraph, int v, int e, int link, int newArc)
-{
-    if (gp_IsArc(e))
-    {
-        int e2 = gp_GetAdjacentArc(theGraph, e, link);
-
-        // e's link is newArc, and newArc's 1^link is e
-        gp_SetAdjacentArc(theGraph, e, link, newArc);
-        gp_SetAdjacentArc(theGraph, newArc, 1 ^ link, e);
-
-        // newArcs's link is e2
-        gp_SetAdjacentArc(theGraph, newArc, link, e2);
-
-        // if e2 is an arc, then e2's 1^link is newArc, else v's 1^link is newArc
-        if (gp_IsArc(e2))
-            gp_SetAdjacentArc(theGraph, e2, 1 ^ link, newArc);
-        else
-            gp_SetArc(theGraph, v, 1 ^ link, newArc);
-    }
-    else
-    {
-        int e2 = gp_GetArc(theGraph, v, link);
-
-        // v's link is newArc, and newArc's 1^link is NIL
-        gp_SetArc(theGraph, v, link, newArc);
-        gp_SetAdjacentArc(theGraph, newArc, 1 ^ link, NIL);
-
-        // newArcs's elink is e2
-        gp_SetAdjacentArc(theGraph, newArc, link, e2);
-
-        // if e2 is an arc, then e2's 1^link is newArc, else v's 1^link is newArc
-        if (gp_IsArc(e2))
-            gp_SetAdjacentArc(theGraph, e2, 1 ^ link, newArc);
-        else
-            gp_SetArc(theGraph, v, 1 ^ link, newArc);
-    }
-}
-
-/****************************************************************************
- gp_DetachArc()
-
- This routine detaches arc from its adjacency list, but it does not delete
- it from the data structure (only a whole edge can be deleted).
-
- Some algorithms must temporarily detach an edge, perform some calculation,
- and eventually put the edge back. This routine supports that operation.
- The neighboring adjacency list nodes are cross-linked, but the two link
- members of the arc are retained, so the arc can be reattached later by
- invoking _RestoreArc().  A sequence of detached arcs can only be restored
- in the exact opposite order of their detachment.  Thus, algorithms do not
- directly use this method to implement the temporary detach/restore method.
- Instead, gp_HideEdge() and gp_RestoreEdge are used, and algorithms push
- edge hidden edge onto the stack.  One example of this stack usage is
- provided by detaching edges with gp_ContractEdge() or gp_IdentifyVertices(),
- and reattaching with gp_RestoreIdentifications(), which unwinds the stack
- by invoking gp_RestoreVertex().
- ****************************************************************************/
-
-void gp_DetachArc(graphP theGraph, int arc)
-{
-    int nextArc = gp_GetNextArc(theGraph, arc),
-        prevArc = gp_GetPrevArc(theGraph, arc);
-
-    if (gp_IsArc(nextArc))
-        gp_SetPrevArc(theGraph, nextArc, prevArc);
-    else
-        gp_SetLastArc(theGraph, gp_GetNeighbor(theGraph, gp_GetTwinArc(theGraph, arc)), prevArc);
-
-    if (gp_IsArc(prevArc))
-        gp_SetNextArc(theGraph, prevArc, nextArc);
-    else
-        gp_SetFirstArc(theGraph, gp_GetNeighbor(theGraph, gp_GetTwinArc(theGraph, arc)), nextArc);
-}
-
-/********************************************************************
- gp_AddEdge()
- Adds the undirected edge (u,v) to the graph by placing edge records
- representing u into v's circular edge record list and v into u's
- circular edge record list.
-
- upos receives the location in G where the u record in v's list will be
-        placed, and vpos is the location in G of the v record we placed in
- u's list.  These are used to initialize the short circuit links.
-
- ulink (0|1) indicates whether the edge record to v in u's list should
-        become adjacent to u by its 0 or 1 link, i.e. u[ulink] == vpos.
- vlink (0|1) indicates whether the edge record to u in v's list should
-        become adjacent to v by its 0 or 1 link, i.e. v[vlink] == upos.
-
- ********************************************************************/
-
-int gp_AddEdge(graphP theGraph, int u, int ulink, int v, int vlink)
-{
-    int upos, vpos;
-
-    if (theGraph == NULL || u < gp_GetFirstVertex(theGraph) || v < gp_GetFirstVertex(theGraph) ||
-        !gp_VirtualVertexInRange(theGraph, u) || !gp_VirtualVertexInRange(theGraph, v))
-        return NOTOK;
-
-    /* We enforce the edge limit */
-
-    if (theGraph->M >= theGraph->arcCapacity / 2)
-        return NONEMBEDDABLE;
-
-    if (sp_NonEmpty(theGraph->edgeHoles))
-    {
-        sp_Pop(theGraph->edgeHoles, vpos);
-    }
-    else
-        vpos = gp_EdgeInUseIndexBound(theGraph);
-
-    upos = gp_GetTwinArc(theGraph, vpos);
-
-    gp_SetNeighbor(theGraph, upos, v);
-    gp_AttachArc(theGraph, u, NIL, ulink, upos);
-    gp_SetNeighbor(theGraph, vpos, u);
-    gp_AttachArc(theGraph, v, NIL, vlink, vpos);
-
-    theGraph->M++;
-    return OK;
-}
-
-/********************************************************************
- gp_DynamicAddEdge()
- Refer to documentation for gp_AddEdge for parameter description.
-
- Tries to call gp_AddEdge; if NONEMBEDDABLE, doubles the arc
- capacity (up to a max of (N * (N-1))) using gp_EnsureArcCapacity,
- then retries gp_AddEdge.
- ********************************************************************/
-int gp_DynamicAddEdge(graphP theGraph, int u, int ulink, int v, int vlink)
-{
-    int Result = OK;
-
-    if (theGraph == NULL || u < gp_GetFirstVertex(theGraph) || v < gp_GetFirstVertex(theGraph) ||
-        !gp_VirtualVertexInRange(theGraph, u) || !gp_VirtualVertexInRange(theGraph, v))
-        return NOTOK;
-
-    Result = gp_AddEdge(theGraph, u, ulink, v, vlink);
-
-    if (Result == NONEMBEDDABLE)
-    {
-        int candidateArcCapacity = gp_GetArcCapacity(theGraph) * 2;
-        int N = theGraph->N;
-        int newArcCapacity = (candidateArcCapacity / N >= N - 1) ? (N * (N - 1)) : candidateArcCapacity;
-        Result = gp_EnsureArcCapacity(theGraph, newArcCapacity);
-
-        if (Result != OK)
-            return Result;
-
-        Result = gp_AddEdge(theGraph, u, ulink, v, vlink);
-    }
-
-    return Result;
-}
-
-/********************************************************************
- gp_InsertEdge()
-
- This function adds the edge (u, v) such that the edge record added
- to the adjacency list of u is adjacent to e_u and the edge record
- added to the adjacency list of v is adjacent to e_v.
- The direction of adjacency is given by e_ulink for e_u and e_vlink
- for e_v. Specifically, the new edge will be comprised of two arcs,
- n_u and n_v.  In u's (v's) adjacency list, n_u (n_v) will be added
- so that it is indicated by e_u's (e_v's) e_ulink (e_vlink).
- If e_u (or e_v) is not an arc, then e_ulink (e_vlink) indicates
- whether to prepend or append to the adjacency list for u (v).
- ********************************************************************/
-
-int gp_InsertEdge(graphP theGraph, int u, int e_u, int e_ulink,
-                  int v, int e_v, int e_vlink)
-{
-    int vertMax, edgeMax, upos, vpos;
-
-    if (theGraph == NULL)
-        return NOTOK;
-
-    vertMax = gp_GetLastVirtualVertex(theGraph);
-    edgeMax = gp_EdgeInUseIndexBound(theGraph) - 1;
-
-    if (u < gp_GetFirstVertex(theGraph) || v < gp_GetFirstVertex(theGraph) ||
-        u > vertMax || v > vertMax ||
-        e_u > edgeMax || (e_u < gp_GetFirstEdge(theGraph) && gp_IsArc(e_u)) ||
-        e_v > edgeMax || (e_v < gp_GetFirstEdge(theGraph) && gp_IsArc(e_v)) ||
-        e_ulink < 0 || e_ulink > 1 || e_vlink < 0 || e_vlink > 1)
-        return NOTOK;
-
-    if (theGraph->M >= theGraph->arcCapacity / 2)
-        return NONEMBEDDABLE;
-
-    if (sp_NonEmpty(theGraph->edgeHoles))
-    {
-        sp_Pop(theGraph->edgeHoles, vpos);
-    }
-    else
-        vpos = gp_EdgeInUseIndexBound(theGraph);
-
-    upos = gp_GetTwinArc(theGraph, vpos);
-
-    gp_SetNeighbor(theGraph, upos, v);
-    gp_AttachArc(theGraph, u, e_u, e_ulink, upos);
-
-    gp_SetNeighbor(theGraph, vpos, u);
-    gp_AttachArc(theGraph, v, e_v, e_vlink, vpos);
-
-    theGraph->M++;
-
-    return OK;
-}
-
-/****************************************************************************
- gp_DeleteEdge()
-
- This function deletes the given edge record e and its twin, reducing the
- number of edges M in the graph.
- Before the e^th record is deleted, its 'nextLink' adjacency list neighbor
- is collected as the return result.  This is useful when iterating through
- an edge list and making deletions because the nextLink arc is the 'next'
- arc in the iteration, but it is hard to obtain *after* deleting e.
- ****************************************************************************/
-
-int gp_DeleteEdge(graphP theGraph, int e, int nextLink)
-{
-    // Calculate the nextArc after e so that, when e is deleted, the return result
-    // informs a calling loop of the next edge to be processed.
-    int nextArc = gp_GetAdjacentArc(theGraph, e, nextLink);
-
-    // Delete the edge records e and eTwin from their adjacency lists.
-    gp_DetachArc(theGraph, e);
-    gp_DetachArc(theGraph, gp_GetTwinArc(theGraph, e));
-
-    // Clear the two edge records
-    // (the bit twiddle (e & ~1) chooses the lesser of e and its twin arc)
-#if NIL == 0
-    memset(theGraph->E + (e & ~1), NIL_CHAR, sizeof(edgeRec) << 1);
-#else
-    _InitEdgeRec(theGraph, e);
-    _InitEdgeRec(theGraph, gp_GetTwinArc(theGraph, e));
-#endif
-
-    // Now we reduce the number of edges in the data structure
-    theGraph->M--;
-
-    // If records e and eTwin were not the last in the edge record array,
-    // then record a new hole in the edge array. */
-    if (e < gp_EdgeInUseIndexBound(theGraph))
-    {
-        sp_Push(theGraph->edgeHoles, e);
-    }
-
-    // Return the previously calculated successor of e.
-    return nextArc;
-}
-
-/********************************************************************
- _RestoreArc()
- This routine reinserts an arc into the edge list from which it
- was previously removed by gp_DetachArc().
-
- The assumed processing model is that arcs will be restored in reverse
- of the order in which they were hidden, i.e. it is assumed that the
- hidden arcs will be pushed on a stack and the arcs will be popped
- from the stack for restoration.
- ********************************************************************/
-
-void _RestoreArc(graphP theGraph, int arc)
-{
-    int nextArc = gp_GetNextArc(theGraph, arc),
-        prevArc = gp_GetPrevArc(theGraph, arc);
-
-    if (gp_IsArc(nextArc))
-        gp_SetPrevArc(theGraph, nextArc, arc);
-    else
-        gp_SetLastArc(theGraph, gp_GetNeighbor(theGraph, gp_GetTwinArc(theGraph, arc)), arc);
-
-    if (gp_IsArc(prevArc))
-        gp_SetNextArc(theGraph, prevArc, arc);
-    else
-        gp_SetFirstArc(theGraph, gp_GetNeighbor(theGraph, gp_GetTwinArc(theGraph, arc)), arc);
-}
-
-/********************************************************************
- gp_HideEdge()
- This routine removes the two arcs of an edge from the adjacency lists
- of its endpoint vertices, but does not delete them from the storage
- data structure.
-
- Many algorithms must temporarily remove an edge, perform some
- calculation, and eventually put the edge back. This routine supports
- that operation.
-
- For each arc, the neighboring adjacency list nodes are cross-linked,
- but the links in the arc are retained because they indicate the
- neighbor arcs to which the arc can be reattached by gp_RestoreEdge().
- ********************************************************************/
-
-void gp_HideEdge(graphP theGraph, int e)
-{
-    theGraph->functions.fpHideEdge(theGraph, e);
-}
-
-void _HideEdge(graphP theGraph, int e)
-{
-    gp_DetachArc(theGraph, e);
-    gp_DetachArc(theGraph, gp_GetTwinArc(theGraph, e));
-}
-
-/********************************************************************
- gp_RestoreEdge()
- This routine reinserts two two arcs of an edge into the adjacency
- lists of the edge's endpoints, the arcs having been previously
- removed by gp_HideEdge().
-
- The assumed processing model is that edges will be restored in
- reverse of the order in which they were hidden, i.e. it is assumed
- that the hidden edges will be pushed on a stack and the edges will
- be popped from the stack for restoration.
-
- Note: Since both arcs of an edge are restored, only one arc need
-        be pushed on the stack for restoration.  This routine
-        restores the two arcs in the opposite order from the order
-        in which they are hidden by gp_HideEdge().
- ********************************************************************/
-
-void gp_RestoreEdge(graphP theGraph, int e)
-{
-    theGraph->functions.fpRestoreEdge(theGraph, e);
-}
-
-void _RestoreEdge(graphP theGraph, int e)
-{
-    _RestoreArc(theGraph, gp_GetTwinArc(theGraph, e));
-    _RestoreArc(theGraph, e);
-}
-
-/********************************************************************
- _HideInternalEdges()
- Pushes onto the graph's stack and hides all arc nodes of the vertex
- except the first and last arcs in the adjacency list of the vertex.
- This method is typically called on a vertex that is on the external
- face of a biconnected component, because the first and last arcs are
- the ones that attach the vertex to the external face cycle, and any
- other arcs in the adjacency list are inside that cycle.
-
- This method uses the stack. The caller is expected to clear the stack
- or save the stack size before invocation, since the stack size is
- needed to _RestoreInternalEdges().
- ********************************************************************/
-
-int _HideInternalEdges(graphP theGraph, int vertex)
-{
-    int e = gp_GetFirstArc(theGraph, vertex);
-
-    // If the vertex adjacency list is empty or if it contains
-    // only one edge, then there are no *internal* edges to hide
-    if (e == gp_GetLastArc(theGraph, vertex))
-        return OK;
-
-    // Start with the first internal edge
-    e = gp_GetNextArc(theGraph, e);
-
-    // Cycle through all the edges, pushing each except stop
-    // before pushing the last edge, which is not internal
-    while (e != gp_GetLastArc(theGraph, vertex))
-    {
-        sp_Push(theGraph->theStack, e);
-        gp_HideEdge(theGraph, e);
-        e = gp_GetNextArc(theGraph, e);
-    }
-
-    return OK;
-}
-
-/********************************************************************
- _RestoreInternalEdges()
- Reverses the effects of _HideInternalEdges()
- ********************************************************************/
-
-int _RestoreInternalEdges(graphP theGraph, int stackBottom)
-{
-    return _RestoreHiddenEdges(theGraph, stackBottom);
-}
-
-/********************************************************************
- _RestoreHiddenEdges()
-
- Each entry on the stack, down to stackBottom, is assumed to be an
- edge record (arc) pushed in concert with invoking gp_HideEdge().
- Each edge is restored using gp_RestoreEdge() in exact reverse of the
- hiding order.  The stack is reduced in size to stackBottom.
-
- Returns OK on success, NOTOK on internal failure.
- ********************************************************************/
-
-int _RestoreHiddenEdges(graphP theGraph, int stackBottom)
-{
-    int e;
-
-    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
-    {
-        sp_Pop(theGraph->theStack, e);
-        if (gp_IsNotArc(e))
-            return NOTOK;
-        gp_RestoreEdge(theGraph, e);
-    }
-
-    return OK;
-}
-
-/********************************************************************
- gp_HideVertex()
-
- Pushes onto the graph's stack and hides all arc nodes of the vertex.
- Additional integers are then pushed so that the result is reversible
- by gp_RestoreVertex().  See that method for details on the expected
- stack segment.
-
- Returns OK for success, NOTOK for internal failure.
- ********************************************************************/
-
-int gp_HideVertex(graphP theGraph, int vertex)
-{
-    if (gp_IsNotVertex(vertex))
-        return NOTOK;
-
-    return theGraph->functions.fpHideVertex(theGraph, vertex);
-}
-
-int _HideVertex(graphP theGraph, int vertex)
-{
-    int hiddenEdgeStackBottom = sp_GetCurrentSize(theGraph->theStack);
-    int e = gp_GetFirstArc(theGraph, vertex);
-
-    // The edges of the vertex plus the seven additional integers must fit on the stack
-    if (sp_GetCapacity(theGraph->theStack) - hiddenEdgeStackBottom < gp_GetVertexDegree(theGraph, vertex) + 7)
-        return NOTOK;
-
-    // Cycle through all the edges, pushing and hiding each
-    while (gp_IsArc(e))
-    {
-        sp_Push(theGraph->theStack, e);
-        gp_HideEdge(theGraph, e);
-        e = gp_GetNextArc(theGraph, e);
-    }
-
-    // Push the additional integers needed by gp_RestoreVertex()
-    sp_Push(theGraph->theStack, hiddenEdgeStackBottom);
-    sp_Push(theGraph->theStack, NIL);
-    sp_Push(theGraph->theStack, NIL);
-    sp_Push(theGraph->theStack, NIL);
-    sp_Push(theGraph->theStack, NIL);
-    sp_Push(theGraph->theStack, NIL);
-    sp_Push(theGraph->theStack, vertex);
-
-    return OK;
-}
-
-/********************************************************************
- gp_ContractEdge()
-
- Contracts the edge e=(u,v).  This hides the edge (both e and its
- twin arc), and it also identifies vertex v with u.
- See gp_IdentifyVertices() for further details.
-
- Returns OK for success, NOTOK for internal failure.
- ********************************************************************/
-
-int gp_ContractEdge(graphP theGraph, int e)
-{
-    if (gp_IsNotArc(e))
-        return NOTOK;
-
-    return theGraph->functions.fpContractEdge(theGraph, e);
-}
-
-int _ContractEdge(graphP theGraph, int e)
-{
-    int eBefore, u, v, hiddenEdgeStackBottom;
-
-    if (gp_IsNotArc(e))
-        return NOTOK;
-
-    u = gp_GetNeighbor(theGraph, gp_GetTwinArc(theGraph, e));
-    v = gp_GetNeighbor(theGraph, e);
-
-    hiddenEdgeStackBottom = sp_GetCurrentSize(theGraph->theStack);
-
-    // The hidden edges plus the seven additional integers must fit on the stack
-    if (sp_GetCapacity(theGraph->theStack) - hiddenEdgeStackBottom < gp_GetVertexDegree(theGraph, v) + 7)
-        return NOTOK;
-
-    eBefore = gp_GetNextArc(theGraph, e);
-    sp_Push(theGraph->theStack, e);
-    gp_HideEdge(theGraph, e);
-
-    if (gp_IdentifyVertices(theGraph, u, v, eBefore) != OK)
-        return NOTOK;
-
-    // The vertex identification pushes K hidden edges, then an integer
-    // indicating where the top of stack was before those edges were hidden,
-    // then six more integers to indicate edges that were moved from v to u.
-    // That "hidden edges stackBottom" integer must indicate where the top of
-    // stack was before e was pushed, so that gp_RestoreVertex() restores e too.
-    sp_Set(theGraph->theStack, sp_GetCurrentSize(theGraph->theStack) - 7, hiddenEdgeStackBottom);
-
-    return OK;
-}
-
-/********************************************************************
- gp_IdentifyVertices()
-
- Identifies vertex v with vertex u by transferring all adjacencies
- of v to u.  Any duplicate edges are removed as described below.
- The non-duplicate edges of v are added to the adjacency list of u
- without disturbing their relative order, and they are added before
- the edge record eBefore in u's list. If eBefore is NIL, then the
- edges are simply appended to u's list.
-
- If u and v are adjacent, then gp_HideEdge() is invoked to remove
- the edge e=(u,v). Then, the edges of v that indicate neighbors of
- u are also hidden.  This is done by setting the visited flags of
- u's neighbors, then traversing the adjacency list of v.  For each
- visited neighbor of v, the edge is hidden because it would duplicate
- an adjacency already expressed in u's list. Finally, the remaining
- edges of v are moved to u's list, and each twin arc is adjusted
- to indicate u as a neighbor rather than v.
-
- This routine assumes that the visited flags are clear beforehand,
- and visited flag settings made herein are cleared before returning.
-
- The following are pushed, in order, onto the graph's built-in stack:
- 1) an integer for each hidden edge
- 2) the stack size before any hidden edges were pushed
- 3) six integers that indicate u, v and the edges moved from v to u
-
- An algorithm that identifies a series of vertices, either through
- directly calling this method or via gp_ContractEdge(), can unwind
- the identifications using gp_RestoreIdentifications(), which
- invokes gp_RestoreVertex() repeatedly.
-
- Returns OK on success, NOTOK on internal failure
- ********************************************************************/
-
-int gp_IdentifyVertices(graphP theGraph, int u, int v, int eBefore)
-{
-    return theGraph->functions.fpIdentifyVertices(theGraph, u, v, eBefore);
-}
-
-int _IdentifyVertices(graphP theGraph, int u, int v, int eBefore)
-{
-    int e = gp_GetNeighborEdgeRecord(theGraph, u, v);
-    int hiddenEdgeStackBottom, eBeforePred;
-
-    // If the vertices are adjacent, then the identification is
-    // essentially an edge contraction.
-    if (gp_IsArc(e))
-    {
-        // The edge contraction operation pushes one hidden edge, then
-        // recursively calls this method, then makes the stack segment
-        // indicate the hidden edge, too.
-        return gp_ContractEdge(theGraph, e);
-    }
-
-    // Now, u and v are not adjacent. Before we do any edge hiding or
-    // moving, we record the current stack size, as this is the
-    // stackBottom for the edges that will be hidden next.
-    hiddenEdgeStackBottom = sp_GetCurrentSize(theGraph->theStack);
-
-    // The hidden edges plus the seven additional integers must fit on the stack
-    if (sp_GetCapacity(theGraph->theStack) - hiddenEdgeStackBottom < gp_GetVertexDegree(theGraph, v) + 7)
-        return NOTOK;
-
-    // Mark as visited all neighbors of u
-    e = gp_GetFirstArc(theGraph, u);
-    while (gp_IsArc(e))
-    {
-        if (gp_GetVertexVisited(theGraph, gp_GetNeighbor(theGraph, e)))
-            return NOTOK;
-
-        gp_SetVertexVisited(theGraph, gp_GetNeighbor(theGraph, e));
-        e = gp_GetNextArc(theGraph, e);
-    }
-
-    // For each edge record of v, if the neighbor is visited, then
-    // push and hide the edge.
-    e = gp_GetFirstArc(theGraph, v);
-    while (gp_IsArc(e))
-    {
-        if (gp_GetVertexVisited(theGraph, gp_GetNeighbor(theGraph, e)))
-        {
-            sp_Push(theGraph->theStack, e);
-            gp_HideEdge(theGraph, e);
-        }
-        e = gp_GetNextArc(theGraph, e);
-    }
-
-    // Mark as unvisited all neighbors of u
-    e = gp_GetFirstArc(theGraph, u);
-    while (gp_IsArc(e))
-    {
-        gp_ClearVertexVisited(theGraph, gp_GetNeighbor(theGraph, e));
-        e = gp_GetNextArc(theGraph, e);
-    }
-
-    // Push the hiddenEdgeStackBottom as a record of how many hidden
-    // edges were pushed (also, see above for Contract Edge adjustment)
-    sp_Push(theGraph->theStack, hiddenEdgeStackBottom);
-
-    // Moving v's adjacency list to u is aided by knowing the predecessor
-    // of u's eBefore (the edge record in u's list before which the
-    // edge records of v will be added).
-    eBeforePred = gp_IsArc(eBefore)
-                      ? gp_GetPrevArc(theGraph, eBefore)
-                      : gp_GetLastArc(theGraph, u);
-
-    // Turns out we only need to record six integers related to the edges
-    // being moved in order to easily restore them later.
-    sp_Push(theGraph->theStack, eBefore);
-    sp_Push(theGraph->theStack, gp_GetLastArc(theGraph, v));
-    sp_Push(theGraph->theStack, gp_GetFirstArc(theGraph, v));
-    sp_Push(theGraph->theStack, eBeforePred);
-    sp_Push(theGraph->theStack, u);
-    sp_Push(theGraph->theStack, v);
-
-    // For the remaining edge records of v, reassign the 'v' member
-    //    of each twin arc to indicate u rather than v.
-    e = gp_GetFirstArc(theGraph, v);
-    while (gp_IsArc(e))
-    {
-        gp_SetNeighbor(theGraph, gp_GetTwinArc(theGraph, e), u);
-        e = gp_GetNextArc(theGraph, e);
-    }
-
-    // If v has any edges left after hiding edges, indicating common neighbors with u, ...
-    if (gp_IsArc(gp_GetFirstArc(theGraph, v)))
-    {
-        // Then perform the list union of v into u between eBeforePred and eBefore
-        if (gp_IsArc(eBeforePred))
-        {
-            if (gp_IsArc(gp_GetFirstArc(theGraph, v)))
-            {
-                gp_SetNextArc(theGraph, eBeforePred, gp_GetFirstArc(theGraph, v));
-                gp_SetPrevArc(theGraph, gp_GetFirstArc(theGraph, v), eBeforePred);
-            }
-        }
-        else
-        {
-            gp_SetFirstArc(theGraph, u, gp_GetFirstArc(theGraph, v));
-        }
-
-        if (gp_IsArc(eBefore))
-        {
-            if (gp_IsArc(gp_GetLastArc(theGraph, v)))
-            {
-                gp_SetNextArc(theGraph, gp_GetLastArc(theGraph, v), eBefore);
-                gp_SetPrevArc(theGraph, eBefore, gp_GetLastArc(theGraph, v));
-            }
-        }
-        else
-        {
-            gp_SetLastArc(theGraph, u, gp_GetLastArc(theGraph, v));
-        }
-
-        gp_SetFirstArc(theGraph, v, NIL);
-        gp_SetLastArc(theGraph, v, NIL);
-    }
-
-    return OK;
-}
-
-/********************************************************************
- gp_RestoreVertex()
-
- This method assumes the built-in graph stack contents are the result
- of vertex hide, vertex identify and edge contract operations.
- This content consists of segments of integers, each segment
- corresponding to the removal of a vertex during an edge contraction
- or vertex identification in which a vertex v was merged into a
- vertex u.  The segment contains two blocks of integers.
- The first block contains information about u, v, the edge records
- in v's adjacency list that were added to u, and where in u's
- adjacency list they were added.  The second block of integers
- contains a list of edges incident to v that were hidden from the
- graph because they were incident to neighbors of v that were also
- neighbors of u (so they would have produced duplicate edges had
- they been left in v's adjacency list when it was merged with u's
- adjacency list).
-
- This method pops the first block of the segment off the stack and
- uses the information to help remove v's adjacency list from u and
- restore it into v.  Then, the second block is removed from the
- stack, and each indicated edge is restored from the hidden state.
-
- It is anticipated that this method will be overloaded by extension
- algorithms to perform some processing as each vertex is restored.
- Before restoration, the topmost segment has the following structure:
-
- ... FHE ... LHE HESB e_u_succ e_v_last e_v_first e_u_pred u v
-      ^------------|
-
- FHE = First hidden edge
- LHE = Last hidden edge
- HESB = Hidden edge stack bottom
- e_u_succ, e_u_pred = The edges of u between which the edges of v
-                      were inserted. NIL can appear if the edges of v
-                      were added to the beginning or end of u's list
- e_v_first, e_v_last = The first and last edges of v's list, once
-                       the hidden edges were removed
-
- Returns OK for success, NOTOK for internal failure.
- ********************************************************************/
-
-int gp_RestoreVertex(graphP theGraph)
-{
-    return theGraph->functions.fpRestoreVertex(theGraph);
-}
-
-int _RestoreVertex(graphP theGraph)
-{
-    int u, v, e_u_succ, e_u_pred, e_v_first, e_v_last, HESB, e;
-
-    if (sp_GetCurrentSize(theGraph->theStack) < 7)
-        return NOTOK;
-
-    sp_Pop(theGraph->theStack, v);
-    sp_Pop(theGraph->theStack, u);
-    sp_Pop(theGraph->theStack, e_u_pred);
-    sp_Pop(theGraph->theStack, e_v_first);
-    sp_Pop(theGraph->theStack, e_v_last);
-    sp_Pop(theGraph->theStack, e_u_succ);
-
-    // If u is not NIL, then vertex v was identified with u.  Otherwise, v was
-    // simply hidden, so we skip to restoring the hidden edges.
-    if (gp_IsVertex(u))
-    {
-        // Remove v's adjacency list from u, including accounting for degree 0 case
-        if (gp_IsArc(e_u_pred))
-        {
-            gp_SetNextArc(theGraph, e_u_pred, e_u_succ);
-            // If the successor edge exists, link it to the predecessor,
-            // otherwise the predecessor is the new last arc
-            if (gp_IsArc(e_u_succ))
-                gp_SetPrevArc(theGraph, e_u_succ, e_u_pred);
-            else
-                gp_SetLastArc(theGraph, u, e_u_pred);
-        }
-        else if (gp_IsArc(e_u_succ))
-        {
-            // The successor arc exists, but not the predecessor,
-            // so the successor is the new first arc
-            gp_SetPrevArc(theGraph, e_u_succ, NIL);
-            gp_SetFirstArc(theGraph, u, e_u_succ);
-        }
-        else
-        {
-            // Just in case u was degree zero
-            gp_SetFirstArc(theGraph, u, NIL);
-            gp_SetLastArc(theGraph, u, NIL);
-        }
-
-        // Place v's adjacency list into v, including accounting for degree 0 case
-        gp_SetFirstArc(theGraph, v, e_v_first);
-        gp_SetLastArc(theGraph, v, e_v_last);
-        if (gp_IsArc(e_v_first))
-            gp_SetPrevArc(theGraph, e_v_first, NIL);
-        if (gp_IsArc(e_v_last))
-            gp_SetNextArc(theGraph, e_v_last, NIL);
-
-        // For each edge record restored to v's adjacency list, reassign the 'v' member
-        //    of each twin arc to indicate v rather than u.
-        e = e_v_first;
-        while (gp_IsArc(e))
-        {
-            gp_SetNeighbor(theGraph, gp_GetTwinArc(theGraph, e), v);
-            e = (e == e_v_last ? NIL : gp_GetNextArc(theGraph, e));
-        }
-    }
-
-    // Restore the hidden edges of v, if any
-    sp_Pop(theGraph->theStack, HESB);
-    return _RestoreHiddenEdges(theGraph, HESB);
-}
-
-/********************************************************************
- gp_RestoreVertices()
-
- This method assumes the built-in graph stack has content consistent
- with numerous vertex identification or edge contraction operations.
- This method unwinds the stack, moving edges back to their original
- vertex owners and restoring hidden edges.
- This method is a simple iterator that invokes gp_RestoreVertex()
- until the stack is empty, so extension algorithms are more likely
- to overload gp_RestoreVertex().
-
- Returns OK for success, NOTOK for internal failure.
- ********************************************************************/
-
-int gp_RestoreVertices(graphP theGraph)
-{
-    while (sp_NonEmpty(theGraph->theStack))
-    {
-        if (gp_RestoreVertex(theGraph) != OK)
-            return NOTOK;
-    }
-
-    return OK;
-}
-
-/****************************************************************************
- _ComputeArcType()
- This is just a little helper function that automates a sequence of decisions
- that has to be made a number of times.
- An edge record is being added to the adjacency list of a; it indicates that
- b is a neighbor.  The edgeType can be either 'tree' (EDGE_TYPE_PARENT or
- EDGE_TYPE_CHILD) or 'cycle' (EDGE_TYPE_BACK or EDGE_TYPE_FORWARD).
- If a or b is a root copy, we translate to the non-virtual counterpart,
- then wedetermine which has the lesser DFI.  If a has the lower DFI then the
- edge record is a tree edge to a child (EDGE_TYPE_CHILD) if edgeType indicates
- a tree edge.  If edgeType indicates a cycle edge, then it is a forward cycle
- edge (EDGE_TYPE_FORWARD) to a descendant.
- Symmetric conditions define the types for a > b.
- ****************************************************************************/
-
-int _ComputeArcType(graphP theGraph, int a, int b, int edgeType)
-{
-    a = gp_IsVirtualVertex(theGraph, a) ? gp_GetPrimaryVertexFromRoot(theGraph, a) : a;
-    b = gp_IsVirtualVertex(theGraph, b) ? gp_GetPrimaryVertexFromRoot(theGraph, b) : b;
-
-    if (a < b)
-        return edgeType == EDGE_TYPE_PARENT || edgeType == EDGE_TYPE_CHILD ? EDGE_TYPE_CHILD : EDGE_TYPE_FORWARD;
-
-    return edgeType == EDGE_TYPE_PARENT || edgeType == EDGE_TYPE_CHILD ? EDGE_TYPE_PARENT : EDGE_TYPE_BACK;
-}
-
-/****************************************************************************
- _SetEdgeType()
- When we are restoring an edge, we must restore its type (tree edge or cycle edge).
- We can deduce what the type was based on other information in the graph. Each
- arc of the edge gets the appropriate type setting (parent/child or back/forward).
- This method runs in constant time plus the degree of vertex u, or constant
- time if u is known to have a degree bound by a constant.
- ****************************************************************************/
-
-int _SetEdgeType(graphP theGraph, int u, int v)
-{
-    int e, eTwin, u_orig, v_orig;
-
-    // If u or v is a virtual vertex (a root copy), then get the non-virtual counterpart.
-    u_orig = gp_IsVirtualVertex(theGraph, u) ? (gp_GetPrimaryVertexFromRoot(theGraph, u)) : u;
-    v_orig = gp_IsVirtualVertex(theGraph, v) ? (gp_GetPrimaryVertexFromRoot(theGraph, v)) : v;
-
-    // Get the edge for which we will set the type
-
-    e = gp_GetNeighborEdgeRecord(theGraph, u, v);
-    eTwin = gp_GetTwinArc(theGraph, e);
-
-    // If u_orig is the parent of v_orig, or vice versa, then the edge is a tree edge
-
-    if (gp_GetVertexParent(theGraph, v_orig) == u_orig ||
-        gp_GetVertexParent(theGraph, u_orig) == v_orig)
-    {
-        if (u_orig > v_orig)
-        {
-            gp_ResetEdgeType(theGraph, e, EDGE_TYPE_PARENT);
-            gp_ResetEdgeType(theGraph, eTwin, EDGE_TYPE_CHILD);
-        }
-        else
-        {
-            gp_ResetEdgeType(theGraph, eTwin, EDGE_TYPE_PARENT);
-            gp_ResetEdgeType(theGraph, e, EDGE_TYPE_CHILD);
-        }
-    }
-
-    // Otherwise it is a back edge
-
-    else
-    {
-        if (u_orig > v_orig)
-        {
-            gp_ResetEdgeType(theGraph, e, EDGE_TYPE_BACK);
-            gp_ResetEdgeType(theGraph, eTwin, EDGE_TYPE_FORWARD);
-        }
-        else
-        {
-            gp_ResetEdgeType(theGraph, eTwin, EDGE_TYPE_BACK);
-            gp_ResetEdgeType(theGraph, e, EDGE_TYPE_FORWARD);
-        }
-    }
-
-    return OK;
-}
-
-/********************************************************************
- _DeleteUnmarkedEdgesInBicomp()
-
- This function deletes from a given biconnected component all edges
- whose visited member is zero.
-
- The stack is used but preserved. In debug mode, NOTOK can result if
- there is a stack overflow. This method pushes at most one integer
- per vertex in the bicomp.
-
- Returns OK on success, NOTOK on implementation failure
- ********************************************************************/
-
-int _DeleteUnmarkedEdgesInBicomp(graphP theGraph, int BicompRoot)
-{
-    int V, e;
-    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
-
-    sp_Push(theGraph->theStack, BicompRoot);
-    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
-    {
-        sp_Pop(theGraph->theStack, V);
-
-        e = gp_GetFirstArc(theGraph, V);
-        while (gp_IsArc(e))
-        {
-            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
-                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
-
-            e = gp_GetEdgeVisited(theGraph, e) ? gp_GetNextArc(theGraph, e) : gp_DeleteEdge(theGraph, e, 0);
-        }
-    }
-    return OK;
-}
-
-/********************************************************************
- _ClearInvertedFlagsInBicomp()
-
- This function clears the inverted flag markers on any edges in a
- given biconnected component.
-
- The stack is used but preserved. In debug mode, NOTOK can result if
- there is a stack overflow. This method pushes at most one integer
- per vertex in the bicomp.
-
- Returns OK on success, NOTOK on implementation failure
- ********************************************************************/
-
-int _ClearInvertedFlagsInBicomp(graphP theGraph, int BicompRoot)
-{
-    int V, e;
-    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
-
-    sp_Push(theGraph->theStack, BicompRoot);
-    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
-    {
-        sp_Pop(theGraph->theStack, V);
-
-        e = gp_GetFirstArc(theGraph, V);
-        while (gp_IsArc(e))
-        {
-            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
-            {
-                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
-                gp_ClearEdgeFlagInverted(theGraph, e);
-            }
-
-            e = gp_GetNextArc(theGraph, e);
-        }
-    }
-    return OK;
-}
-
-/********************************************************************
- _GetBicompSize()
-
- Determine the number of vertices in the bicomp.
-
- The stack is used but preserved. In debug mode, NOTOK can result if
- there is a stack overflow. This method pushes at most one integer
- per vertex in the bicomp.
-
- Returns a positive number on success, NOTOK on implementation failure
- ********************************************************************/
-
-int _GetBicompSize(graphP theGraph, int BicompRoot)
-{
-    int V, e;
-    int theSize = 0;
-    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
-
-    sp_Push(theGraph->theStack, BicompRoot);
-    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
-    {
-        sp_Pop(theGraph->theStack, V);
-        theSize++;
-        e = gp_GetFirstArc(theGraph, V);
-        while (gp_IsArc(e))
-        {
-            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
-                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
-
-            e = gp_GetNextArc(theGraph, e);
-        }
-    }
-    return theSize;
-}
-
-/********************************************************************
- debugNOTOK()
- This function provides a non-void wrapper for exit().
- This is useful for debugging as it allows compilation of an exit
- command in places where NOTOK is returned.
- In exhaustive testing, we want to bail on the first NOTOK that occurs.
- Comment out the exit() call to get a stack trace.
- ********************************************************************/
-
-int debugNOTOK(void)
-{
-    // exit(-1);
-    return 0; // NOTOK is normally defined to be zero
-}
+/*
+Copyright (c) 1997-2022, John M. Boyer
+All rights reserved.
+See the LICENSE.TXT file for licensing information.
+*/
+
+#include <stdlib.h>
+
+#include "graphStructures.h"
+#include "graph.h"
+
+/* Imported functions for FUNCTION POINTERS */
+
+extern int _EmbeddingInitialize(graphP theGraph);
+extern int _SortVertices(graphP theGraph);
+extern void _EmbedBackEdgeToDescendant(graphP theGraph, int RootSide, int RootVertex, int W, int WPrevLink);
+extern void _WalkUp(graphP theGraph, int v, int e);
+extern int _WalkDown(graphP theGraph, int v, int RootVertex);
+extern int _MergeBicomps(graphP theGraph, int v, int RootVertex, int W, int WPrevLink);
+extern void _MergeVertex(graphP theGraph, int W, int WPrevLink, int R);
+extern int _HandleBlockedBicomp(graphP theGraph, int v, int RootVertex, int R);
+extern int _HandleInactiveVertex(graphP theGraph, int BicompRoot, int *pW, int *pWPrevLink);
+extern int _MarkDFSPath(graphP theGraph, int ancestor, int descendant);
+extern int _EmbedPostprocess(graphP theGraph, int v, int edgeEmbeddingResult);
+extern int _CheckEmbeddingIntegrity(graphP theGraph, graphP origGraph);
+extern int _CheckObstructionIntegrity(graphP theGraph, graphP origGraph);
+extern int _ReadPostprocess(graphP theGraph, void *extraData, long extraDataSize);
+extern int _WritePostprocess(graphP theGraph, void **pExtraData, long *pExtraDataSize);
+
+/* Internal util functions for FUNCTION POINTERS */
+
+int _HideVertex(graphP theGraph, int vertex);
+void _HideEdge(graphP theGraph, int arcPos);
+void _RestoreEdge(graphP theGraph, int arcPos);
+int _ContractEdge(graphP theGraph, int e);
+int _IdentifyVertices(graphP theGraph, int u, int v, int eBefore);
+int _RestoreVertex(graphP theGraph);
+
+/********************************************************************
+ Private functions, except exported within library
+ ********************************************************************/
+
+void _InitIsolatorContext(graphP theGraph);
+void _ClearVisitedFlags(graphP theGraph);
+void _ClearVertexVisitedFlags(graphP theGraph, int);
+void _ClearEdgeVisitedFlags(graphP theGraph);
+int _ClearVisitedFlagsInBicomp(graphP theGraph, int BicompRoot);
+int _ClearVisitedFlagsInOtherBicomps(graphP theGraph, int BicompRoot);
+void _ClearVisitedFlagsInUnembeddedEdges(graphP theGraph);
+int _FillVertexVisitedInfoInBicomp(graphP theGraph, int BicompRoot, int FillValue);
+int _ClearVertexTypeInBicomp(graphP theGraph, int BicompRoot);
+
+int _HideInternalEdges(graphP theGraph, int vertex);
+int _RestoreInternalEdges(graphP theGraph, int stackBottom);
+int _RestoreHiddenEdges(graphP theGraph, int stackBottom);
+
+int _GetBicompSize(graphP theGraph, int BicompRoot);
+int _DeleteUnmarkedEdgesInBicomp(graphP theGraph, int BicompRoot);
+int _ClearInvertedFlagsInBicomp(graphP theGraph, int BicompRoot);
+
+void _InitFunctionTable(graphP theGraph);
+
+/********************************************************************
+ Private functions.
+ ********************************************************************/
+
+void _InitVertices(graphP theGraph);
+void _InitEdges(graphP theGraph);
+
+void _ClearGraph(graphP theGraph);
+
+int _GetRandomNumber(int NMin, int NMax);
+
+/* Private functions for which there are FUNCTION POINTERS */
+
+void _InitVertexRec(graphP theGraph, int v);
+void _InitVertexInfo(graphP theGraph, int v);
+void _InitEdgeRec(graphP theGraph, int e);
+
+int _InitGraph(graphP theGraph, int N);
+void _ReinitializeGraph(graphP theGraph);
+int _EnsureArcCapacity(graphP theGraph, int requiredArcCapacity);
+
+/********************************************************************
+ gp_New()
+ Constructor for graph object.
+ Can create two graphs if restricted to no dynamic memory.
+ ********************************************************************/
+
+graphP gp_New(void)
+{
+    graphP theGraph = (graphP)malloc(sizeof(baseGraphStructure));
+
+    if (theGraph != NULL)
+    {
+        theGraph->E = NULL;
+        theGraph->V = NULL;
+        theGraph->VI = NULL;
+
+        theGraph->BicompRootLists = NULL;
+        theGraph->sortedDFSChildLists = NULL;
+        theGraph->theStack = NULL;
+
+        theGraph->extFace = NULL;
+
+        theGraph->edgeHoles = NULL;
+
+        theGraph->extensions = NULL;
+
+        _InitFunctionTable(theGraph);
+
+        _ClearGraph(theGraph);
+    }
+
+    return theGraph;
+}
+
+/********************************************************************
+ _InitFunctionTable()
+
+ If you add functions to the function table, then they must be
+ initialized here, but you must also add the new function pointer
+ to the definition of the graphFunctionTable in graphFunctionTable.h
+
+ Function headers for the functions used to initialize the table are
+ classified at the top of this file as either imported from other
+ compilation units (extern) or private to this compilation unit.
+ Search for FUNCTION POINTERS in this file to see where to add the
+ function header.
+ ********************************************************************/
+
+void _InitFunctionTable(graphP theGraph)
+{
+    theGraph->functions.fpEmbeddingInitialize = _EmbeddingInitialize;
+    theGraph->functions.fpEmbedBackEdgeToDescendant = _EmbedBackEdgeToDescendant;
+    theGraph->functions.fpWalkUp = _WalkUp;
+    theGraph->functions.fpWalkDown = _WalkDown;
+    theGraph->functions.fpMergeBicomps = _MergeBicomps;
+    theGraph->functions.fpMergeVertex = _MergeVertex;
+    theGraph->functions.fpHandleBlockedBicomp = _HandleBlockedBicomp;
+    theGraph->functions.fpHandleInactiveVertex = _HandleInactiveVertex;
+    theGraph->functions.fpEmbedPostprocess = _EmbedPostprocess;
+    theGraph->functions.fpMarkDFSPath = _MarkDFSPath;
+    theGraph->functions.fpCheckEmbeddingIntegrity = _CheckEmbeddingIntegrity;
+    theGraph->functions.fpCheckObstructionIntegrity = _CheckObstructionIntegrity;
+
+    theGraph->functions.fpInitGraph = _InitGraph;
+    theGraph->functions.fpReinitializeGraph = _ReinitializeGraph;
+    theGraph->functions.fpEnsureArcCapacity = _EnsureArcCapacity;
+    theGraph->functions.fpSortVertices = _SortVertices;
+
+    theGraph->functions.fpReadPostprocess = _ReadPostprocess;
+    theGraph->functions.fpWritePostprocess = _WritePostprocess;
+
+    theGraph->functions.fpHideEdge = _HideEdge;
+    theGraph->functions.fpRestoreEdge = _RestoreEdge;
+    theGraph->functions.fpHideVertex = _HideVertex;
+    theGraph->functions.fpRestoreVertex = _RestoreVertex;
+    theGraph->functions.fpContractEdge = _ContractEdge;
+    theGraph->functions.fpIdentifyVertices = _IdentifyVertices;
+}
+
+/********************************************************************
+ gp_InitGraph()
+ Allocates memory for vertex and edge records now that N is known.
+ The arcCapacity is set to (2 * DEFAULT_EDGE_LIMIT * N) unless it
+     has already been set by gp_EnsureArcCapacity()
+
+ For V, we need 2N vertex records, N for vertices and N for virtual vertices (root copies).
+
+ For VI, we need N vertexInfo records.
+
+ For E, we need arcCapacity edge records.
+
+ The BicompRootLists and sortedDFSChildLists are of size N and start out empty.
+
+ The stack, initially empty, is made big enough for a pair of integers
+     per edge record (2 * arcCapacity), or 6N integers if the arcCapacity
+     was set below the default value.
+
+ The edgeHoles stack, initially empty, is set to arcCapacity / 2,
+     which is big enough to push every edge (to indicate an edge
+     you only need to indicate one of its two edge records)
+
+  Returns OK on success, NOTOK on all failures.
+          On NOTOK, graph extensions are freed so that the graph is
+          returned to the post-condition of gp_New().
+ ********************************************************************/
+
+int gp_InitGraph(graphP theGraph, int N)
+{
+    // valid params check
+    if (theGraph == NULL || N <= 0)
+        return NOTOK;
+
+    // Should not call init a second time; use reinit
+    if (theGraph->N)
+        return NOTOK;
+
+    return theGraph->functions.fpInitGraph(theGraph, N);
+}
+
+int _InitGraph(graphP theGraph, int N)
+{
+    int Vsize, VIsize, Esize, stackSize;
+
+    // Compute the vertex and edge capacities of the graph
+    theGraph->N = N;
+    theGraph->NV = N;
+    theGraph->arcCapacity = theGraph->arcCapacity > 0 ? theGraph->arcCapacity : 2 * DEFAULT_EDGE_LIMIT * N;
+    VIsize = gp_PrimaryVertexIndexBound(theGraph);
+    Vsize = gp_VertexIndexBound(theGraph);
+    Esize = gp_EdgeIndexBound(theGraph);
+
+    // Stack size is 2 integers per arc, or 6 integers per vertex in case of small arcCapacity
+    stackSize = 2 * Esize;
+    stackSize = stackSize < 6 * N ? 6 * N : stackSize;
+
+    // Allocate memory as described above
+    if ((theGraph->V = (vertexRecP)calloc(Vsize, sizeof(vertexRec))) == NULL ||
+        (theGraph->VI = (vertexInfoP)calloc(VIsize, sizeof(vertexInfo))) == NULL ||
+        (theGraph->E = (edgeRecP)calloc(Esize, sizeof(edgeRec))) == NULL ||
+        (theGraph->BicompRootLists = LCNew(VIsize)) == NULL ||
+        (theGraph->sortedDFSChildLists = LCNew(VIsize)) == NULL ||
+        (theGraph->theStack = sp_New(stackSize)) == NULL ||
+        (theGraph->extFace = (extFaceLinkRecP)calloc(Vsize, sizeof(extFaceLinkRec))) == NULL ||
+        (theGraph->edgeHoles = sp_New(Esize / 2)) == NULL ||
+        0)
+    {
+        _ClearGraph(theGraph);
+        return NOTOK;
+    }
+
+    // Initialize memory
+    _InitVertices(theGraph);
+    _InitEdges(theGraph);
+    _InitIsolatorContext(theGraph);
+
+    return OK;
+}
+
+/********************************************************************
+ _InitVertices()
+ ********************************************************************/
+void _InitVertices(graphP theGraph)
+{
+#if NIL == 0
+    memset(theGraph->V, NIL_CHAR, gp_VertexIndexBound(theGraph) * sizeof(vertexRec));
+    memset(theGraph->VI, NIL_CHAR, gp_PrimaryVertexIndexBound(theGraph) * sizeof(vertexInfo));
+    memset(theGraph->extFace, NIL_CHAR, gp_VertexIndexBound(theGraph) * sizeof(extFaceLinkRec));
+#elif NIL == -1
+    int v;
+
+    memset(theGraph->V, NIL_CHAR, gp_VertexIndexBound(theGraph) * sizeof(vertexRec));
+    memset(theGraph->VI, NIL_CHAR, gp_PrimaryVertexIndexBound(theGraph) * sizeof(vertexInfo));
+    memset(theGraph->extFace, NIL_CHAR, gp_VertexIndexBound(theGraph) * sizeof(extFaceLinkRec));
+
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+        gp_InitVertexFlags(theGraph, v);
+
+#else
+    int v;
+
+    // Initialize primary vertices
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+    {
+        _InitVertexRec(theGraph, v);
+        _InitVertexInfo(theGraph, v);
+        gp_SetExtFaceVertex(theGraph, v, 0, NIL);
+        gp_SetExtFaceVertex(theGraph, v, 1, NIL);
+    }
+
+    // Initialize virtual vertices
+    for (v = gp_GetFirstVirtualVertex(theGraph); gp_VirtualVertexInRange(theGraph, v); v++)
+    {
+        _InitVertexRec(theGraph, v);
+        gp_SetExtFaceVertex(theGraph, v, 0, NIL);
+        gp_SetExtFaceVertex(theGraph, v, 1, NIL);
+    }
+#endif
+}
+
+/********************************************************************
+ _InitEdges()
+ ********************************************************************/
+void _InitEdges(graphP theGraph)
+{
+#if NIL == 0
+    memset(theGraph->E, NIL_CHAR, gp_EdgeIndexBound(theGraph) * sizeof(edgeRec));
+#elif NIL == -1
+    int e, Esize;
+
+    memset(theGraph->E, NIL_CHAR, gp_EdgeIndexBound(theGraph) * sizeof(edgeRec));
+
+    Esize = gp_EdgeIndexBound(theGraph);
+    for (e = gp_GetFirstEdge(theGraph); e < Esize; e++)
+        gp_InitEdgeFlags(theGraph, e);
+
+#else
+    int e, Esize;
+
+    Esize = gp_EdgeIndexBound(theGraph);
+    for (e = gp_GetFirstEdge(theGraph); e < Esize; e++)
+        _InitEdgeRec(theGraph, e);
+#endif
+}
+
+/********************************************************************
+ gp_ReinitializeGraph()
+ Reinitializes a graph, restoring it to the state it was in immediately
+ after gp_InitGraph() processed it.
+ ********************************************************************/
+
+void gp_ReinitializeGraph(graphP theGraph)
+{
+    if (theGraph == NULL || theGraph->N <= 0)
+        return;
+
+    theGraph->functions.fpReinitializeGraph(theGraph);
+}
+
+void _ReinitializeGraph(graphP theGraph)
+{
+    theGraph->M = 0;
+    theGraph->internalFlags = theGraph->embedFlags = 0;
+
+    _InitVertices(theGraph);
+    _InitEdges(theGraph);
+    _InitIsolatorContext(theGraph);
+
+    LCReset(theGraph->BicompRootLists);
+    LCReset(theGraph->sortedDFSChildLists);
+    sp_ClearStack(theGraph->theStack);
+    sp_ClearStack(theGraph->edgeHoles);
+}
+
+/********************************************************************
+ gp_GetArcCapacity()
+ Returns the arcCapacity of theGraph, which is twice the maximum
+ number of edges that can be added to the theGraph.
+ ********************************************************************/
+int gp_GetArcCapacity(graphP theGraph)
+{
+    return theGraph->arcCapacity;
+}
+
+/********************************************************************
+ gp_EnsureArcCapacity()
+ This method ensures that theGraph is or will be capable of storing
+ at least requiredArcCapacity edge records.  Two edge records are
+ needed per edge.
+
+ This method is most performant when invoked immediately after
+ gp_New(), since it must only set the arcCapacity and then let
+ normal initialization to occur through gp_InitGraph().
+
+ This method is also a constant time operation if the graph already
+ has at least the requiredArcCapacity, since it will return OK
+ without making any structural changes.
+
+ This method is generally more performant if it is invoked before
+ attaching extensions to the graph.  Some extensions associate
+ parallel data with edge records, which is a faster operation if
+ the associated data is created and initialized only after the
+ proper arcCapacity is specified.
+
+ If the graph has been initialized and has a lower arc capacity,
+ then the array of edge records is reallocated to satisfy the
+ requiredArcCapacity.  The new array contains the old edges and
+ edge holes at the same locations, and all newly created edge records
+ are initialized.
+
+ Also, if the arc capacity must be increased, then the
+ arcCapacity member of theGraph is changed and both
+ theStack and edgeHoles are expanded (since the sizes of both
+ are based on the arc capacity).
+
+ Extensions that add to data associated with edges must overload
+ this method to ensure capacity in the parallel extension data
+ structures.  An extension can return NOTOK if it does not
+ support arc capacity expansion.  The extension function will
+ not be called if arcCapacity is expanded before the graph is
+ initialized, and it is assumed that extensions will allocate
+ parallel data structures according to the arc capacity.
+
+ If an extension supports arc capacity expansion, then higher
+ performance can be obtained by using the method of unhooking
+ the initializers for individual edge records before invoking
+ the superclass version of fpEnsureArcCapacity().  Ideally,
+ application authors should ensure the proper arc capacity before
+ attaching extensions to achieve better performance.
+
+ Returns NOTOK on failure to reallocate the edge record array to
+         satisfy the requiredArcCapacity, or if the requested
+         capacity is odd
+         OK if reallocation is not required or if reallocation succeeds
+ ********************************************************************/
+int gp_EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
+{
+    if (theGraph == NULL || requiredArcCapacity <= 0)
+        return NOTOK;
+
+    // Train callers to only ask for an even number of arcs, since
+    // two are required per edge or directed edge.
+    if (requiredArcCapacity & 1)
+        return NOTOK;
+
+    if (theGraph->arcCapacity >= requiredArcCapacity)
+        return OK;
+
+    // In the special case where gp_InitGraph() has not yet been called,
+    // we can simply set the higher arcCapacity since normal initialization
+    // will then allocate the correct number of edge records.
+    if (theGraph->N == 0)
+    {
+        theGraph->arcCapacity = requiredArcCapacity;
+        return OK;
+    }
+
+    // Try to expand the arc capacity
+    return theGraph->functions.fpEnsureArcCapacity(theGraph, requiredArcCapacity);
+}
+
+int _EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
+{
+    stackP newStack;
+    edgeRecP newE;
+    int e, Esize = gp_EdgeIndexBound(theGraph),
+           newEsize = gp_GetFirstEdge(theGraph) + requiredArcCapacity;
+
+    // If the new size is less than or equal to the old size, then
+    // the graph already has the required arc capacity
+    if (newEsize <= Esize)
+        return OK;
+
+    // Expand theStack
+    if (sp_GetCapacity(theGraph->theStack) < 2 * requiredArcCapacity)
+    {
+        int stackSize = 2 * requiredArcCapacity;
+
+        if (stackSize < 6 * theGraph->N)
+        {
+            // NOTE: Since this routine only makes the stack bigger, this
+            //       calculation is not needed here because we already ensured
+            //       we had stack capacity of the greater of 2*arcs and 6*N
+            //       But we do it for clarity and consistency (e.g. so this rule
+            //       is not forgotten whenever a "SetArcCapacity" method or a
+            //       "reduceArcCapacity" method is added)
+            stackSize = 6 * theGraph->N;
+        }
+
+        if ((newStack = sp_New(stackSize)) == NULL)
+            return NOTOK;
+
+        sp_CopyContent(newStack, theGraph->theStack);
+        sp_Free(&theGraph->theStack);
+        theGraph->theStack = newStack;
+    }
+
+    // Expand edgeHoles
+    if ((newStack = sp_New(requiredArcCapacity / 2)) == NULL)
+    {
+        return NOTOK;
+    }
+
+    sp_CopyContent(newStack, theGraph->edgeHoles);
+    sp_Free(&theGraph->edgeHoles);
+    theGraph->edgeHoles = newStack;
+
+    // Reallocate the edgeRec array to the new size,
+    newE = (edgeRecP)realloc(theGraph->E, newEsize * sizeof(edgeRec));
+    if (newE == NULL)
+        return NOTOK;
+    theGraph->E = newE;
+
+    // Initialize the new edge records
+    for (e = Esize; e < newEsize; e++)
+        _InitEdgeRec(theGraph, e);
+
+    // The new arcCapacity has been successfully achieved
+    theGraph->arcCapacity = requiredArcCapacity;
+    return OK;
+}
+
+/********************************************************************
+ _InitVertexRec()
+ Sets the fields in a single vertex record to initial values
+ ********************************************************************/
+
+void _InitVertexRec(graphP theGraph, int v)
+{
+    gp_SetFirstArc(theGraph, v, NIL);
+    gp_SetLastArc(theGraph, v, NIL);
+    gp_SetVertexIndex(theGraph, v, NIL);
+    gp_InitVertexFlags(theGraph, v);
+}
+
+/********************************************************************
+ _InitVertexInfo()
+ Sets the fields in a single vertex record to initial values
+ ********************************************************************/
+
+void _InitVertexInfo(graphP theGraph, int v)
+{
+    gp_SetVertexParent(theGraph, v, NIL);
+    gp_SetVertexLeastAncestor(theGraph, v, NIL);
+    gp_SetVertexLowpoint(theGraph, v, NIL);
+
+    gp_SetVertexVisitedInfo(theGraph, v, NIL);
+    gp_SetVertexPertinentEdge(theGraph, v, NIL);
+    gp_SetVertexPertinentRootsList(theGraph, v, NIL);
+    gp_SetVertexFuturePertinentChild(theGraph, v, NIL);
+    gp_SetVertexSortedDFSChildList(theGraph, v, NIL);
+    gp_SetVertexFwdArcList(theGraph, v, NIL);
+}
+
+/********************************************************************
+ _InitEdgeRec()
+ Sets the fields in a single edge record structure to initial values
+ ********************************************************************/
+
+void _InitEdgeRec(graphP theGraph, int e)
+{
+    gp_SetNeighbor(theGraph, e, NIL);
+    gp_SetPrevArc(theGraph, e, NIL);
+    gp_SetNextArc(theGraph, e, NIL);
+    gp_InitEdgeFlags(theGraph, e);
+}
+
+/********************************************************************
+ _InitIsolatorContext()
+ ********************************************************************/
+
+void _InitIsolatorContext(graphP theGraph)
+{
+    isolatorContextP IC = &theGraph->IC;
+
+    IC->minorType = 0;
+    IC->v = IC->r = IC->x = IC->y = IC->w = IC->px = IC->py = IC->z =
+        IC->ux = IC->dx = IC->uy = IC->dy = IC->dw = IC->uz = IC->dz = NIL;
+}
+
+/********************************************************************
+ _ClearVisitedFlags()
+ ********************************************************************/
+
+void _ClearVisitedFlags(graphP theGraph)
+{
+    _ClearVertexVisitedFlags(theGraph, TRUE);
+    _ClearEdgeVisitedFlags(theGraph);
+}
+
+/********************************************************************
+ _ClearVertexVisitedFlags()
+ ********************************************************************/
+
+void _ClearVertexVisitedFlags(graphP theGraph, int includeVirtualVertices)
+{
+    int v;
+
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+        gp_ClearVertexVisited(theGraph, v);
+
+    if (includeVirtualVertices)
+        for (v = gp_GetFirstVirtualVertex(theGraph); gp_VirtualVertexInRange(theGraph, v); v++)
+            gp_ClearVertexVisited(theGraph, v);
+}
+
+/********************************************************************
+ _ClearEdgeVisitedFlags()
+ ********************************************************************/
+
+void _ClearEdgeVisitedFlags(graphP theGraph)
+{
+    int e, EsizeOccupied;
+
+    EsizeOccupied = gp_EdgeInUseIndexBound(theGraph);
+    for (e = gp_GetFirstEdge(theGraph); e < EsizeOccupied; e++)
+        gp_ClearEdgeVisited(theGraph, e);
+}
+
+/********************************************************************
+ _ClearVisitedFlagsInBicomp()
+
+ Clears the visited flag of the vertices and arcs in the bicomp rooted
+ by BicompRoot.
+
+ This method uses the stack but preserves whatever may have been
+ on it.  In debug mode, it will return NOTOK if the stack overflows.
+ This method pushes at most one integer per vertex in the bicomp.
+
+ Returns OK on success, NOTOK on implementation failure.
+ ********************************************************************/
+
+int _ClearVisitedFlagsInBicomp(graphP theGraph, int BicompRoot)
+{
+    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
+    int v, e;
+
+    sp_Push(theGraph->theStack, BicompRoot);
+    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
+    {
+        sp_Pop(theGraph->theStack, v);
+        gp_ClearVertexVisited(theGraph, v);
+
+        e = gp_GetFirstArc(theGraph, v);
+        while (gp_IsArc(e))
+        {
+            gp_ClearEdgeVisited(theGraph, e);
+
+            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
+                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
+
+            e = gp_GetNextArc(theGraph, e);
+        }
+    }
+    return OK;
+}
+
+/********************************************************************
+ _ClearVisitedFlagsInOtherBicomps()
+ Typically, we want to clear all visited flags in the graph
+ (see _ClearVisitedFlags).  However, in some algorithms this would be
+ too costly, so it is necessary to clear the visited flags only
+ in one bicomp (see _ClearVisitedFlagsInBicomp), then do some processing
+ that sets some of the flags then performs some tests.  If the tests
+ are positive, then we can clear all the visited flags in the
+ other bicomps (the processing may have set the visited flags in the
+ one bicomp in a particular way that we want to retain, so we skip
+ the given bicomp).
+ ********************************************************************/
+
+int _ClearVisitedFlagsInOtherBicomps(graphP theGraph, int BicompRoot)
+{
+    int R;
+
+    for (R = gp_GetFirstVirtualVertex(theGraph); gp_VirtualVertexInRange(theGraph, R); R++)
+    {
+        if (R != BicompRoot && gp_VirtualVertexInUse(theGraph, R))
+        {
+            if (_ClearVisitedFlagsInBicomp(theGraph, R) != OK)
+                return NOTOK;
+        }
+    }
+    return OK;
+}
+
+/********************************************************************
+ _ClearVisitedFlagsInUnembeddedEdges()
+ Unembedded edges aren't part of any bicomp yet, but it may be
+ necessary to clear their visited flags.
+ ********************************************************************/
+
+void _ClearVisitedFlagsInUnembeddedEdges(graphP theGraph)
+{
+    int v, e;
+
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+    {
+        e = gp_GetVertexFwdArcList(theGraph, v);
+        while (gp_IsArc(e))
+        {
+            gp_ClearEdgeVisited(theGraph, e);
+            gp_ClearEdgeVisited(theGraph, gp_GetTwinArc(theGraph, e));
+
+            e = gp_GetNextArc(theGraph, e);
+            if (e == gp_GetVertexFwdArcList(theGraph, v))
+                e = NIL;
+        }
+    }
+}
+
+/****************************************************************************
+ _ClearVisitedFlagsOnPath()
+ This method clears the visited flags on the vertices and edges on the path
+ (u, v, ..., w, x) in which all vertices except the endpoints u and x
+ are degree 2.  This method avoids performing more than constant work at the
+ path endpoints u and x, so the total work is on the order of the path length.
+
+ Returns OK on success, NOTOK on internal failure
+ ****************************************************************************/
+
+int _ClearVisitedFlagsOnPath(graphP theGraph, int u, int v, int w, int x)
+{
+    int e, eTwin;
+
+    // We want to exit u from e, but we get eTwin first here in order to avoid
+    // work, in case the degree of u is greater than 2.
+    eTwin = gp_GetNeighborEdgeRecord(theGraph, v, u);
+    if (gp_IsNotArc(eTwin))
+        return NOTOK;
+    e = gp_GetTwinArc(theGraph, eTwin);
+
+    v = u;
+
+    do
+    {
+        // Mark the vertex and the exiting edge
+        gp_ClearVertexVisited(theGraph, v);
+        gp_ClearEdgeVisited(theGraph, e);
+        gp_ClearEdgeVisited(theGraph, eTwin);
+
+        // Get the next vertex
+        v = gp_GetNeighbor(theGraph, e);
+        e = gp_GetNextArcCircular(theGraph, eTwin);
+        eTwin = gp_GetTwinArc(theGraph, e);
+    } while (v != x);
+
+    // Mark the last vertex with 'visited'
+    gp_ClearVertexVisited(theGraph, x);
+
+    return OK;
+}
+
+/****************************************************************************
+ _SetVisitedFlagsOnPath()
+ This method sets the visited flags on the vertices and edges on the path
+ (u, v, ..., w, x) in which all vertices except the endpoints u and x
+ are degree 2.  This method avoids performing more than constant work at the
+ path endpoints u and x, so the total work is on the order of the path length.
+
+ Returns OK on success, NOTOK on internal failure
+ ****************************************************************************/
+
+int _SetVisitedFlagsOnPath(graphP theGraph, int u, int v, int w, int x)
+{
+    int e, eTwin;
+
+    // We want to exit u from e, but we get eTwin first here in order to avoid
+    // work, in case the degree of u is greater than 2.
+    eTwin = gp_GetNeighborEdgeRecord(theGraph, v, u);
+    if (gp_IsNotArc(eTwin))
+        return NOTOK;
+    e = gp_GetTwinArc(theGraph, eTwin);
+
+    v = u;
+
+    do
+    {
+        // Mark the vertex and the exiting edge
+        gp_SetVertexVisited(theGraph, v);
+        gp_SetEdgeVisited(theGraph, e);
+        gp_SetEdgeVisited(theGraph, eTwin);
+
+        // Get the next vertex
+        v = gp_GetNeighbor(theGraph, e);
+        e = gp_GetNextArcCircular(theGraph, eTwin);
+        eTwin = gp_GetTwinArc(theGraph, e);
+    } while (v != x);
+
+    // Mark the last vertex with 'visited'
+    gp_SetVertexVisited(theGraph, x);
+
+    return OK;
+}
+
+/********************************************************************
+ _FillVertexVisitedInfoInBicomp()
+
+ Places the FillValue into the visitedInfo of the non-virtual vertices
+ in the bicomp rooted by BicompRoot.
+
+ This method uses the stack but preserves whatever may have been
+ on it.  In debug mode, it will return NOTOK if the stack overflows.
+ This method pushes at most one integer per vertex in the bicomp.
+
+ Returns OK on success, NOTOK on implementation failure.
+ ********************************************************************/
+
+int _FillVertexVisitedInfoInBicomp(graphP theGraph, int BicompRoot, int FillValue)
+{
+    int v, e;
+    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
+
+    sp_Push(theGraph->theStack, BicompRoot);
+    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
+    {
+        sp_Pop(theGraph->theStack, v);
+
+        if (gp_IsNotVirtualVertex(theGraph, v))
+            gp_SetVertexVisitedInfo(theGraph, v, FillValue);
+
+        e = gp_GetFirstArc(theGraph, v);
+        while (gp_IsArc(e))
+        {
+            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
+                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
+
+            e = gp_GetNextArc(theGraph, e);
+        }
+    }
+    return OK;
+}
+
+/********************************************************************
+ _ClearVertexTypeInBicomp()
+
+ Clears the 'obstruction type' bits for each vertex in the bicomp
+ rooted by BicompRoot.
+
+ This method uses the stack but preserves whatever may have been
+ on it.  In debug mode, it will return NOTOK if the stack overflows.
+ This method pushes at most one integer per vertex in the bicomp.
+
+ Returns OK on success, NOTOK on implementation failure.
+ ********************************************************************/
+
+int _ClearVertexTypeInBicomp(graphP theGraph, int BicompRoot)
+{
+    int V, e;
+    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
+
+    sp_Push(theGraph->theStack, BicompRoot);
+    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
+    {
+        sp_Pop(theGraph->theStack, V);
+        gp_ClearVertexObstructionType(theGraph, V);
+
+        e = gp_GetFirstArc(theGraph, V);
+        while (gp_IsArc(e))
+        {
+            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
+                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
+
+            e = gp_GetNextArc(theGraph, e);
+        }
+    }
+    return OK;
+}
+
+/********************************************************************
+ _ClearGraph()
+ Clears all memory used by the graph, restoring it to the state it
+ was in immediately after gp_New() created it.
+ ********************************************************************/
+
+void _ClearGraph(graphP theGraph)
+{
+    if (theGraph->V != NULL)
+    {
+        free(theGraph->V);
+        theGraph->V = NULL;
+    }
+    if (theGraph->VI != NULL)
+    {
+        free(theGraph->VI);
+        theGraph->VI = NULL;
+    }
+    if (theGraph->E != NULL)
+    {
+        free(theGraph->E);
+        theGraph->E = NULL;
+    }
+
+    theGraph->N = 0;
+    theGraph->NV = 0;
+    theGraph->M = 0;
+    theGraph->arcCapacity = 0;
+    theGraph->internalFlags = 0;
+    theGraph->embedFlags = 0;
+
+    _InitIsolatorContext(theGraph);
+
+    LCFree(&theGraph->BicompRootLists);
+    LCFree(&theGraph->sortedDFSChildLists);
+
+    sp_Free(&theGraph->theStack);
+
+    if (theGraph->extFace != NULL)
+    {
+        free(theGraph->extFace);
+        theGraph->extFace = NULL;
+    }
+
+    sp_Free(&theGraph->edgeHoles);
+
+    gp_FreeExtensions(theGraph);
+}
+
+/********************************************************************
+ gp_Free()
+ Frees G and V, then the graph record.  Then sets your pointer to NULL
+ (so you must pass the address of your pointer).
+ ********************************************************************/
+
+void gp_Free(graphP *pGraph)
+{
+    if (pGraph == NULL)
+        return;
+    if (*pGraph == NULL)
+        return;
+
+    _ClearGraph(*pGraph);
+
+    free(*pGraph);
+    *pGraph = NULL;
+}
+
+/********************************************************************
+ gp_CopyAdjacencyLists()
+ Copies the adjacency lists from the srcGraph to the dstGraph.
+ This method intentionally copies only the adjacency lists of the
+ first N vertices, so the adjacency lists of virtual vertices are
+ excluded (unless the caller temporarily resets the value of N to
+ include NV).
+
+ Returns OK on success, NOTOK on failures, e.g. if the two graphs
+ have different orders N or if the arcCapacity of dstGraph cannot
+ be increased to match that of srcGraph.
+ ********************************************************************/
+int gp_CopyAdjacencyLists(graphP dstGraph, graphP srcGraph)
+{
+    int v, e, EsizeOccupied;
+
+    if (dstGraph == NULL || srcGraph == NULL)
+        return NOTOK;
+
+    if (dstGraph->N != srcGraph->N || dstGraph->N == 0)
+        return NOTOK;
+
+    if (gp_EnsureArcCapacity(dstGraph, srcGraph->arcCapacity) != OK)
+        return NOTOK;
+
+    // Copy the links that hook each owning vertex to its adjacency list
+    for (v = gp_GetFirstVertex(srcGraph); gp_VertexInRange(srcGraph, v); v++)
+    {
+        gp_SetFirstArc(dstGraph, v, gp_GetFirstArc(srcGraph, v));
+        gp_SetLastArc(dstGraph, v, gp_GetLastArc(srcGraph, v));
+    }
+
+    // Copy the adjacency links and neighbor pointers for each arc
+    EsizeOccupied = gp_EdgeInUseIndexBound(srcGraph);
+    for (e = gp_GetFirstEdge(theGraph); e < EsizeOccupied; e++)
+    {
+        gp_SetNeighbor(dstGraph, e, gp_GetNeighbor(srcGraph, e));
+        gp_SetNextArc(dstGraph, e, gp_GetNextArc(srcGraph, e));
+        gp_SetPrevArc(dstGraph, e, gp_GetPrevArc(srcGraph, e));
+    }
+
+    // Tell the dstGraph how many edges it now has and where the edge holes are
+    dstGraph->M = srcGraph->M;
+    sp_Copy(dstGraph->edgeHoles, srcGraph->edgeHoles);
+
+    return OK;
+}
+
+/********************************************************************
+ gp_CopyGraph()
+ Copies the content of the srcGraph into the dstGraph.  The dstGraph
+ must have been previously initialized with the same number of
+ vertices as the srcGraph (e.g. gp_InitGraph(dstGraph, srcGraph->N).
+
+ Returns OK for success, NOTOK for failure.
+ ********************************************************************/
+
+int gp_CopyGraph(graphP dstGraph, graphP srcGraph)
+{
+    int v, e, Esize;
+
+    // Parameter checks
+    if (dstGraph == NULL || srcGraph == NULL)
+    {
+        return NOTOK;
+    }
+
+    // The graphs need to be the same order and initialized
+    if (dstGraph->N != srcGraph->N || dstGraph->N == 0)
+    {
+        return NOTOK;
+    }
+
+    // Ensure dstGraph has the required arc capacity; this expands
+    // dstGraph if needed, but does not contract.  An error is only
+    // returned if the expansion fails.
+    if (gp_EnsureArcCapacity(dstGraph, srcGraph->arcCapacity) != OK)
+    {
+        return NOTOK;
+    }
+
+    // Copy the primary vertices.  Augmentations to vertices created
+    // by extensions are copied below by gp_CopyExtensions()
+    for (v = gp_GetFirstVertex(srcGraph); gp_VertexInRange(srcGraph, v); v++)
+    {
+        gp_CopyVertexRec(dstGraph, v, srcGraph, v);
+        gp_CopyVertexInfo(dstGraph, v, srcGraph, v);
+        gp_SetExtFaceVertex(dstGraph, v, 0, gp_GetExtFaceVertex(srcGraph, v, 0));
+        gp_SetExtFaceVertex(dstGraph, v, 1, gp_GetExtFaceVertex(srcGraph, v, 1));
+    }
+
+    // Copy the virtual vertices.  Augmentations to virtual vertices created
+    // by extensions are copied below by gp_CopyExtensions()
+    for (v = gp_GetFirstVirtualVertex(srcGraph); gp_VirtualVertexInRange(srcGraph, v); v++)
+    {
+        gp_CopyVertexRec(dstGraph, v, srcGraph, v);
+        gp_SetExtFaceVertex(dstGraph, v, 0, gp_GetExtFaceVertex(srcGraph, v, 0));
+        gp_SetExtFaceVertex(dstGraph, v, 1, gp_GetExtFaceVertex(srcGraph, v, 1));
+    }
+
+    // Copy the basic EdgeRec structures.  Augmentations to the edgeRec structure
+    // created by extensions are copied below by gp_CopyExtensions()
+    Esize = gp_EdgeIndexBound(srcGraph);
+    for (e = gp_GetFirstEdge(theGraph); e < Esize; e++)
+        gp_CopyEdgeRec(dstGraph, e, srcGraph, e);
+
+    // Clear the edge records of dstGraph that srcGraph does not have
+    for (; e < gp_EdgeIndexBound(dstGraph); e++)
+        _InitEdgeRec(dstGraph, e);
+
+    // Give the dstGraph the same size and intrinsic properties
+    dstGraph->N = srcGraph->N;
+    dstGraph->NV = srcGraph->NV;
+    dstGraph->M = srcGraph->M;
+    dstGraph->internalFlags = srcGraph->internalFlags;
+    dstGraph->embedFlags = srcGraph->embedFlags;
+
+    dstGraph->IC = srcGraph->IC;
+
+    LCCopy(dstGraph->BicompRootLists, srcGraph->BicompRootLists);
+    LCCopy(dstGraph->sortedDFSChildLists, srcGraph->sortedDFSChildLists);
+    if (sp_Copy(dstGraph->theStack, srcGraph->theStack) != OK ||
+        sp_Copy(dstGraph->edgeHoles, srcGraph->edgeHoles) != OK)
+    {
+        return NOTOK;
+    }
+
+    // Copy the set of extensions, which includes copying the
+    // extension data as well as the function overload tables
+    if (gp_CopyExtensions(dstGraph, srcGraph) != OK)
+        return NOTOK;
+
+    // Copy the graph's function table, which has the pointers to
+    // the most recent extension overloads of each function (or
+    // the original function pointer if a particular function has
+    // not been overloaded).
+    // This must be done after copying the extension because the
+    // first step of copying the extensions is to delete the
+    // dstGraph extensions, which clears its function table.
+    // Therefore, no good to assign the srcGraph functions *before*
+    // copying the extensions because the assignment would be wiped out
+    // This, in turn, means that the DupContext function of an extension
+    // *cannot* depend on any extension function overloads; the extension
+    // must directly invoke extension functions only.
+    dstGraph->functions = srcGraph->functions;
+
+    return OK;
+}
+
+/********************************************************************
+ gp_DupGraph()
+ ********************************************************************/
+
+graphP gp_DupGraph(graphP theGraph)
+{
+    graphP result;
+
+    if ((result = gp_New()) == NULL)
+        return NULL;
+
+    if (gp_InitGraph(result, theGraph->N) != OK ||
+        gp_CopyGraph(result, theGraph) != OK)
+    {
+        gp_Free(&result);
+        return NULL;
+    }
+
+    return result;
+}
+
+/********************************************************************
+ gp_CreateRandomGraph()
+
+ Creates a randomly generated graph.  First a tree is created by
+ connecting each vertex to some successor.  Then a random number of
+ additional random edges are added.  If an edge already exists, then
+ we retry until a non-existent edge is picked.
+
+ This function assumes the caller has already called srand().
+
+ Returns OK on success, NOTOK on failure
+ ********************************************************************/
+
+int gp_CreateRandomGraph(graphP theGraph)
+{
+    int N, M, u, v, m;
+
+    N = theGraph->N;
+
+    /* Generate a random tree; note that this method virtually guarantees
+            that the graph will be renumbered, but it is linear time.
+            Also, we are not generating the DFS tree but rather a tree
+            that simply ensures the resulting random graph is connected. */
+
+    for (v = gp_GetFirstVertex(theGraph) + 1; gp_VertexInRange(theGraph, v); v++)
+    {
+        u = _GetRandomNumber(gp_GetFirstVertex(theGraph), v - 1);
+        if (gp_AddEdge(theGraph, u, 0, v, 0) != OK)
+            return NOTOK;
+    }
+
+    /* Generate a random number of additional edges
+            (actually, leave open a small chance that no
+            additional edges will be added). */
+
+    M = _GetRandomNumber(7 * N / 8, theGraph->arcCapacity / 2);
+
+    if (M > (long long)N * (N - 1) / 2)
+        M = (int)((long long)N * (N - 1) / 2);
+
+    for (m = N - 1; m < M; m++)
+    {
+        u = _GetRandomNumber(gp_GetFirstVertex(theGraph), gp_GetLastVertex(theGraph) - 1);
+        v = _GetRandomNumber(u + 1, gp_GetLastVertex(theGraph));
+
+        // If the edge (u,v) exists, decrement eIndex to try again
+        if (gp_IsNeighbor(theGraph, u, v))
+            m--;
+
+        // If the edge (u,v) doesn't exist, add it
+        else
+        {
+            if (gp_AddEdge(theGraph, u, 0, v, 0) != OK)
+                return NOTOK;
+        }
+    }
+
+    return OK;
+}
+
+/********************************************************************
+ _GetRandomNumber()
+ This function generates a random number between NMin and NMax
+ inclusive.  It assumes that the caller has called srand().
+ It calls rand(), but before truncating to the proper range,
+ it adds the high bits of the rand() result into the low bits.
+ The result of this is that the randomness appearing in the
+ truncated bits also has an affect on the non-truncated bits.
+ ********************************************************************/
+
+int _GetRandomNumber(int NMin, int NMax)
+{
+    unsigned int N = rand();
+
+    if (NMax < NMin)
+        return NMin;
+
+    N += ((N & 0xFFFF0000) >> 16);
+    N += ((N & 0x0000FF00) >> 8);
+    N &= 0x7FFFFFF;
+    N %= (NMax - NMin + 1);
+    return (int)N + NMin;
+}
+
+/********************************************************************
+ _getUnprocessedChild()
+ Support routine for gp_Create RandomGraphEx(), this function
+ obtains a child of the given vertex in the randomly generated
+ tree that has not yet been processed.  NIL is returned if the
+ given vertex has no unprocessed children
+
+ ********************************************************************/
+
+int _getUnprocessedChild(graphP theGraph, int parent)
+{
+    int e = gp_GetFirstArc(theGraph, parent);
+    int eTwin = gp_GetTwinArc(theGraph, e);
+    int child = gp_GetNeighbor(theGraph, e);
+
+    // The tree edges were added to the beginning of the adjacency list,
+    // and we move processed tree edge records to the end of the list,
+    // so if the immediate next arc (edge record) is not a tree edge
+    // then we return NIL because the vertex has no remaining
+    // unprocessed children
+    if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_NOTDEFINED)
+        return NIL;
+
+    // If the child has already been processed, then all children
+    // have been pushed to the end of the list, and we have just
+    // encountered the first child we processed, so there are no
+    // remaining unprocessed children */
+    if (gp_GetEdgeVisited(theGraph, e))
+        return NIL;
+
+    // We have found an edge leading to an unprocessed child, so
+    // we mark it as processed so that it doesn't get returned
+    // again in future iterations.
+    gp_SetEdgeVisited(theGraph, e);
+    gp_SetEdgeVisited(theGraph, eTwin);
+
+    // Now we move the edge record in the parent vertex to the end
+    // of the adjacency list of that vertex.
+    gp_MoveArcToLast(theGraph, parent, e);
+
+    // Now we move the edge record in the child vertex to the
+    // end of the adjacency list of the child.
+    gp_MoveArcToLast(theGraph, child, eTwin);
+
+    // Now we set the child's parent and return the child.
+    gp_SetVertexParent(theGraph, child, parent);
+
+    return child;
+}
+
+/********************************************************************
+ _hasUnprocessedChild()
+ Support routine for gp_Create RandomGraphEx(), this function
+ obtains a child of the given vertex in the randomly generated
+ tree that has not yet been processed.  False (0) is returned
+ unless the given vertex has an unprocessed child.
+ ********************************************************************/
+
+int _hasUnprocessedChild(graphP theGraph, int parent)
+{
+    int e = gp_GetFirstArc(theGraph, parent);
+
+    if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_NOTDEFINED)
+        return 0;
+
+    if (gp_GetEdgeVisited(theGraph, e))
+        return 0;
+
+    return 1;
+}
+
+/********************************************************************
+ gp_CreateRandomGraphEx()
+ Given a graph structure with a pre-specified number of vertices N,
+ this function creates a graph with the specified number of edges.
+
+ If numEdges <= 3N-6, then the graph generated is planar.  If
+ numEdges is larger, then a maximal planar graph is generated, then
+ (numEdges - 3N + 6) additional random edges are added.
+
+ This function assumes the caller has already called srand().
+ ********************************************************************/
+
+int gp_CreateRandomGraphEx(graphP theGraph, int numEdges)
+{
+    int N, arc, M, root, v, c, p, last, u, e, EsizeOccupied;
+
+    N = theGraph->N;
+
+    if (numEdges > theGraph->arcCapacity / 2)
+        numEdges = theGraph->arcCapacity / 2;
+
+    if (numEdges > (long long)N * (N - 1) / 2)
+        numEdges = (int)((long long)N * (N - 1) / 2);
+
+    /* Generate a random tree. */
+
+    for (v = gp_GetFirstVertex(theGraph) + 1; gp_VertexInRange(theGraph, v); v++)
+    {
+        u = _GetRandomNumber(gp_GetFirstVertex(theGraph), v - 1);
+        if (gp_AddEdge(theGraph, u, 0, v, 0) != OK)
+            return NOTOK;
+
+        else
+        {
+            arc = gp_GetNeighborEdgeRecord(theGraph, u, v);
+            gp_SetEdgeType(theGraph, arc, EDGE_TYPE_RANDOMTREE);
+            gp_SetEdgeType(theGraph, gp_GetTwinArc(theGraph, arc), EDGE_TYPE_RANDOMTREE);
+            gp_ClearEdgeVisited(theGraph, arc);
+            gp_ClearEdgeVisited(theGraph, gp_GetTwinArc(theGraph, arc));
+        }
+    }
+
+    /* Add edges up to the limit or until the graph is maximal planar. */
+
+    M = numEdges <= 3 * N - 6 ? numEdges : 3 * N - 6;
+
+    root = gp_GetFirstVertex(theGraph);
+    v = last = _getUnprocessedChild(theGraph, root);
+
+    while (v != root && theGraph->M < M)
+    {
+        c = _getUnprocessedChild(theGraph, v);
+
+        if (gp_IsVertex(c))
+        {
+            if (last != v)
+            {
+                if (theGraph->M < M && gp_AddEdge(theGraph, last, 1, c, 1) != OK)
+                    return NOTOK;
+            }
+
+            if (theGraph->M < M && gp_AddEdge(theGraph, root, 1, c, 1) != OK)
+                return NOTOK;
+
+            v = last = c;
+        }
+
+        else
+        {
+            p = gp_GetVertexParent(theGraph, v);
+            while (gp_IsVertex(p) && gp_IsNotVertex(c = _getUnprocessedChild(theGraph, p)))
+            {
+                v = p;
+                p = gp_GetVertexParent(theGraph, v);
+                if (gp_IsVertex(p) && p != root)
+                {
+                    if (theGraph->M < M && gp_AddEdge(theGraph, last, 1, p, 1) != OK)
+                        return NOTOK;
+                }
+            }
+
+            if (gp_IsVertex(p))
+            {
+                if (p == root)
+                {
+                    if (theGraph->M < M && gp_AddEdge(theGraph, v, 1, c, 1) != OK)
+                        return NOTOK;
+
+                    if (v != last)
+                    {
+                        if (theGraph->M < M && gp_AddEdge(theGraph, last, 1, c, 1) != OK)
+                            return NOTOK;
+                    }
+                }
+                else
+                {
+                    if (theGraph->M < M && gp_AddEdge(theGraph, last, 1, c, 1) != OK)
+                        return NOTOK;
+                }
+
+                if (p != root)
+                {
+                    if (theGraph->M < M && gp_AddEdge(theGraph, root, 1, c, 1) != OK)
+                        return NOTOK;
+                    last = c;
+                }
+
+                v = c;
+            }
+        }
+    }
+
+    /* Add additional edges if the limit has not yet been reached. */
+
+    while (theGraph->M < numEdges)
+    {
+        u = _GetRandomNumber(gp_GetFirstVertex(theGraph), gp_GetLastVertex(theGraph));
+        v = _GetRandomNumber(gp_GetFirstVertex(theGraph), gp_GetLastVertex(theGraph));
+
+        if (u != v && !gp_IsNeighbor(theGraph, u, v))
+            if (gp_AddEdge(theGraph, u, 0, v, 0) != OK)
+                return NOTOK;
+    }
+
+    /* Clear the edge types back to 'unknown' */
+
+    EsizeOccupied = gp_EdgeInUseIndexBound(theGraph);
+    for (e = 0; e < EsizeOccupied; e++)
+    {
+        gp_ClearEdgeType(theGraph, e);
+        gp_ClearEdgeVisited(theGraph, e);
+    }
+
+    /* Put all DFSParent indicators back to NIL */
+
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+        gp_SetVertexParent(theGraph, v, NIL);
+
+    return OK;
+}
+
+/********************************************************************
+ gp_IsNeighbor()
+
+ Checks whether v is already in u's adjacency list, i.e. does the arc
+ u -> v exist.
+ If there is an edge record for v in u's list, but it is marked INONLY,
+ then it represents the arc v->u but not u->v, so it is ignored.
+
+ Returns TRUE or FALSE.
+ ********************************************************************/
+
+int gp_IsNeighbor(graphP theGraph, int u, int v)
+{
+    int e = gp_GetFirstArc(theGraph, u);
+
+    while (gp_IsArc(e))
+    {
+        if (gp_GetNeighbor(theGraph, e) == v)
+        {
+            if (gp_GetDirection(theGraph, e) != EDGEFLAG_DIRECTION_INONLY)
+                return TRUE;
+        }
+        e = gp_GetNextArc(theGraph, e);
+    }
+    return FALSE;
+}
+
+/********************************************************************
+ gp_GetNeighborEdgeRecord()
+ Searches the adjacency list of u to obtains the edge record for v.
+
+ NOTE: The caller should check whether the edge record is INONLY;
+       This method returns any edge record representing a connection
+       between vertices u and v, so this method can return an
+       edge record even if gp_IsNeighbor(theGraph, u, v) is false (0).
+       To filter out INONLY edge records, use gp_GetDirection() on
+       the edge record returned by this method.
+
+ Returns NIL if there is no edge record indicating v in u's adjacency
+         list, or the edge record location otherwise.
+ ********************************************************************/
+
+int gp_GetNeighborEdgeRecord(graphP theGraph, int u, int v)
+{
+    int e;
+
+    if (gp_IsNotVertex(u) || gp_IsNotVertex(v))
+        return NIL + NOTOK - NOTOK;
+
+    e = gp_GetFirstArc(theGraph, u);
+    while (gp_IsArc(e))
+    {
+        if (gp_GetNeighbor(theGraph, e) == v)
+            return e;
+
+        e = gp_GetNextArc(theGraph, e);
+    }
+    return NIL;
+}
+
+/********************************************************************
+ gp_GetVertexDegree()
+
+ Counts the number of edge records in the adjacency list of a given
+ vertex V.
+
+ Note: For digraphs, this method returns the total degree of the
+       vertex, including outward arcs (undirected and OUTONLY)
+       as well as INONLY arcs.  Other functions are defined to get
+       the in-degree or out-degree of the vertex.
+
+ Note: This function determines the degree by counting.  An extension
+       could cache the degree value of each vertex and update the
+       cached value as edges are added and deleted.
+ ********************************************************************/
+
+int gp_GetVertexDegree(graphP theGraph, int v)
+{
+    int e, degree;
+
+    if (theGraph == NULL || gp_IsNotVertex(v))
+        return 0 + NOTOK - NOTOK;
+
+    degree = 0;
+
+    e = gp_GetFirstArc(theGraph, v);
+    while (gp_IsArc(e))
+    {
+        degree++;
+        e = gp_GetNextArc(theGraph, e);
+    }
+
+    return degree;
+}
+
+/********************************************************************
+ gp_GetVertexInDegree()
+
+ Counts the number of edge records in the adjacency list of a given
+ vertex V that represent arcs from another vertex into V.
+ This includes undirected edges and INONLY arcs, so it only excludes
+ edges records that are marked as OUTONLY arcs.
+
+ Note: This function determines the in-degree by counting.  An extension
+       could cache the in-degree value of each vertex and update the
+       cached value as edges are added and deleted.
+ ********************************************************************/
+
+int gp_GetVertexInDegree(graphP theGraph, int v)
+{
+    int e, degree;
+
+    if (theGraph == NULL || gp_IsNotVertex(v))
+        return 0 + NOTOK - NOTOK;
+
+    degree = 0;
+
+    e = gp_GetFirstArc(theGraph, v);
+    while (gp_IsArc(e))
+    {
+        if (gp_GetDirection(theGraph, e) != EDGEFLAG_DIRECTION_OUTONLY)
+            degree++;
+        e = gp_GetNextArc(theGraph, e);
+    }
+
+    return degree;
+}
+
+/********************************************************************
+ gp_GetVertexOutDegree()
+
+ Counts the number of edge records in the adjacency list of a given
+ vertex V that represent arcs from V to another vertex.
+ This includes undirected edges and OUTONLY arcs, so it only excludes
+ edges records that are marked as INONLY arcs.
+
+ Note: This function determines the out-degree by counting.  An extension
+       could cache the out-degree value of each vertex and update the
+       cached value as edges are added and deleted.
+ ********************************************************************/
+
+int gp_GetVertexOutDegree(graphP theGraph, int v)
+{
+    int e, degree;
+
+    if (theGraph == NULL || gp_IsNotVertex(v))
+        return 0 + NOTOK - NOTOK;
+
+    degree = 0;
+
+    e = gp_GetFirstArc(theGraph, v);
+    while (gp_IsArc(e))
+    {
+        if (gp_GetDirection(theGraph, e) != EDGEFLAG_DIRECTION_INONLY)
+            degree++;
+        e = gp_GetNextArc(theGraph, e);
+    }
+
+    return degree;
+}
+
+/********************************************************************
+ gp_AttachArc()
+
+ This routine adds newArc into v's adjacency list at a position
+ adjacent to the edge record for e, either before or after e,
+ depending on link.  If e is not an arc (e.g. if e is NIL),
+ then link is assumed to indicate whether the new arc is to be
+ placed at the beginning or end of v's adjacency list.
+
+ NOTE: The caller can pass NIL for v if e is not NIL, since the
+       vertex is implied (gp_GetNeighbor(theGraph, eTwin))
+
+ The arc is assumed to already exist in the data structure (i.e.
+ the storage of edges), as only a whole edge (two arcs) can be
+ inserted into or deleted from the data structure.  Hence there is
+ no such thing as gp_InsertArc() or gp_DeleteArc().
+
+ See also gp_DetachArc(), gp_InsertEdge() and gp_DeleteEdge()
+ ********************************************************************/
+
+void gp_AttachArc(graphP theGraph, int v, int e, int link, int newArc)
+{
+    if (gp_IsArc(e))
+    {
+        int e2 = gp_GetAdjacentArc(theGraph, e, link);
+
+        // e's link is newArc, and newArc's 1^link is e
+        gp_SetAdjacentArc(theGraph, e, link, newArc);
+        gp_SetAdjacentArc(theGraph, newArc, 1 ^ link, e);
+
+        // newArcs's link is e2
+        gp_SetAdjacentArc(theGraph, newArc, link, e2);
+
+        // if e2 is an arc, then e2's 1^link is newArc, else v's 1^link is newArc
+        if (gp_IsArc(e2))
+            gp_SetAdjacentArc(theGraph, e2, 1 ^ link, newArc);
+        else
+            gp_SetArc(theGraph, v, 1 ^ link, newArc);
+    }
+    else
+    {
+        int e2 = gp_GetArc(theGraph, v, link);
+
+        // v's link is newArc, and newArc's 1^link is NIL
+        gp_SetArc(theGraph, v, link, newArc);
+        gp_SetAdjacentArc(theGraph, newArc, 1 ^ link, NIL);
+
+        // newArcs's elink is e2
+        gp_SetAdjacentArc(theGraph, newArc, link, e2);
+
+        // if e2 is an arc, then e2's 1^link is newArc, else v's 1^link is newArc
+        if (gp_IsArc(e2))
+            gp_SetAdjacentArc(theGraph, e2, 1 ^ link, newArc);
+        else
+            gp_SetArc(theGraph, v, 1 ^ link, newArc);
+    }
+}
+
+/****************************************************************************
+ gp_DetachArc()
+
+ This routine detaches arc from its adjacency list, but it does not delete
+ it from the data structure (only a whole edge can be deleted).
+
+ Some algorithms must temporarily detach an edge, perform some calculation,
+ and eventually put the edge back. This routine supports that operation.
+ The neighboring adjacency list nodes are cross-linked, but the two link
+ members of the arc are retained, so the arc can be reattached later by
+ invoking _RestoreArc().  A sequence of detached arcs can only be restored
+ in the exact opposite order of their detachment.  Thus, algorithms do not
+ directly use this method to implement the temporary detach/restore method.
+ Instead, gp_HideEdge() and gp_RestoreEdge are used, and algorithms push
+ edge hidden edge onto the stack.  One example of this stack usage is
+ provided by detaching edges with gp_ContractEdge() or gp_IdentifyVertices(),
+ and reattaching with gp_RestoreIdentifications(), which unwinds the stack
+ by invoking gp_RestoreVertex().
+ ****************************************************************************/
+
+void gp_DetachArc(graphP theGraph, int arc)
+{
+    int nextArc = gp_GetNextArc(theGraph, arc),
+        prevArc = gp_GetPrevArc(theGraph, arc);
+
+    if (gp_IsArc(nextArc))
+        gp_SetPrevArc(theGraph, nextArc, prevArc);
+    else
+        gp_SetLastArc(theGraph, gp_GetNeighbor(theGraph, gp_GetTwinArc(theGraph, arc)), prevArc);
+
+    if (gp_IsArc(prevArc))
+        gp_SetNextArc(theGraph, prevArc, nextArc);
+    else
+        gp_SetFirstArc(theGraph, gp_GetNeighbor(theGraph, gp_GetTwinArc(theGraph, arc)), nextArc);
+}
+
+/********************************************************************
+ gp_AddEdge()
+ Adds the undirected edge (u,v) to the graph by placing edge records
+ representing u into v's circular edge record list and v into u's
+ circular edge record list.
+
+ upos receives the location in G where the u record in v's list will be
+        placed, and vpos is the location in G of the v record we placed in
+ u's list.  These are used to initialize the short circuit links.
+
+ ulink (0|1) indicates whether the edge record to v in u's list should
+        become adjacent to u by its 0 or 1 link, i.e. u[ulink] == vpos.
+ vlink (0|1) indicates whether the edge record to u in v's list should
+        become adjacent to v by its 0 or 1 link, i.e. v[vlink] == upos.
+
+ ********************************************************************/
+
+int gp_AddEdge(graphP theGraph, int u, int ulink, int v, int vlink)
+{
+    int upos, vpos;
+
+    if (theGraph == NULL || u < gp_GetFirstVertex(theGraph) || v < gp_GetFirstVertex(theGraph) ||
+        !gp_VirtualVertexInRange(theGraph, u) || !gp_VirtualVertexInRange(theGraph, v))
+        return NOTOK;
+
+    /* We enforce the edge limit */
+
+    if (theGraph->M >= theGraph->arcCapacity / 2)
+        return NONEMBEDDABLE;
+
+    if (sp_NonEmpty(theGraph->edgeHoles))
+    {
+        sp_Pop(theGraph->edgeHoles, vpos);
+    }
+    else
+        vpos = gp_EdgeInUseIndexBound(theGraph);
+
+    upos = gp_GetTwinArc(theGraph, vpos);
+
+    gp_SetNeighbor(theGraph, upos, v);
+    gp_AttachArc(theGraph, u, NIL, ulink, upos);
+    gp_SetNeighbor(theGraph, vpos, u);
+    gp_AttachArc(theGraph, v, NIL, vlink, vpos);
+
+    theGraph->M++;
+    return OK;
+}
+
+/********************************************************************
+ gp_DynamicAddEdge()
+ Refer to documentation for gp_AddEdge for parameter description.
+
+ Tries to call gp_AddEdge; if NONEMBEDDABLE, doubles the arc
+ capacity (up to a max of (N * (N-1))) using gp_EnsureArcCapacity,
+ then retries gp_AddEdge.
+ ********************************************************************/
+int gp_DynamicAddEdge(graphP theGraph, int u, int ulink, int v, int vlink)
+{
+    int Result = OK;
+
+    if (theGraph == NULL || u < gp_GetFirstVertex(theGraph) || v < gp_GetFirstVertex(theGraph) ||
+        !gp_VirtualVertexInRange(theGraph, u) || !gp_VirtualVertexInRange(theGraph, v))
+        return NOTOK;
+
+    Result = gp_AddEdge(theGraph, u, ulink, v, vlink);
+
+    if (Result == NONEMBEDDABLE)
+    {
+        int candidateArcCapacity = gp_GetArcCapacity(theGraph) * 2;
+        int N = theGraph->N;
+        int newArcCapacity = (candidateArcCapacity / N >= N - 1) ? (N * (N - 1)) : candidateArcCapacity;
+        Result = gp_EnsureArcCapacity(theGraph, newArcCapacity);
+
+        if (Result != OK)
+            return Result;
+
+        Result = gp_AddEdge(theGraph, u, ulink, v, vlink);
+    }
+
+    return Result;
+}
+
+/********************************************************************
+ gp_InsertEdge()
+
+ This function adds the edge (u, v) such that the edge record added
+ to the adjacency list of u is adjacent to e_u and the edge record
+ added to the adjacency list of v is adjacent to e_v.
+ The direction of adjacency is given by e_ulink for e_u and e_vlink
+ for e_v. Specifically, the new edge will be comprised of two arcs,
+ n_u and n_v.  In u's (v's) adjacency list, n_u (n_v) will be added
+ so that it is indicated by e_u's (e_v's) e_ulink (e_vlink).
+ If e_u (or e_v) is not an arc, then e_ulink (e_vlink) indicates
+ whether to prepend or append to the adjacency list for u (v).
+ ********************************************************************/
+
+int gp_InsertEdge(graphP theGraph, int u, int e_u, int e_ulink,
+                  int v, int e_v, int e_vlink)
+{
+    int vertMax, edgeMax, upos, vpos;
+
+    if (theGraph == NULL)
+        return NOTOK;
+
+    vertMax = gp_GetLastVirtualVertex(theGraph);
+    edgeMax = gp_EdgeInUseIndexBound(theGraph) - 1;
+
+    if (u < gp_GetFirstVertex(theGraph) || v < gp_GetFirstVertex(theGraph) ||
+        u > vertMax || v > vertMax ||
+        e_u > edgeMax || (e_u < gp_GetFirstEdge(theGraph) && gp_IsArc(e_u)) ||
+        e_v > edgeMax || (e_v < gp_GetFirstEdge(theGraph) && gp_IsArc(e_v)) ||
+        e_ulink < 0 || e_ulink > 1 || e_vlink < 0 || e_vlink > 1)
+        return NOTOK;
+
+    if (theGraph->M >= theGraph->arcCapacity / 2)
+        return NONEMBEDDABLE;
+
+    if (sp_NonEmpty(theGraph->edgeHoles))
+    {
+        sp_Pop(theGraph->edgeHoles, vpos);
+    }
+    else
+        vpos = gp_EdgeInUseIndexBound(theGraph);
+
+    upos = gp_GetTwinArc(theGraph, vpos);
+
+    gp_SetNeighbor(theGraph, upos, v);
+    gp_AttachArc(theGraph, u, e_u, e_ulink, upos);
+
+    gp_SetNeighbor(theGraph, vpos, u);
+    gp_AttachArc(theGraph, v, e_v, e_vlink, vpos);
+
+    theGraph->M++;
+
+    return OK;
+}
+
+/****************************************************************************
+ gp_DeleteEdge()
+
+ This function deletes the given edge record e and its twin, reducing the
+ number of edges M in the graph.
+ Before the e^th record is deleted, its 'nextLink' adjacency list neighbor
+ is collected as the return result.  This is useful when iterating through
+ an edge list and making deletions because the nextLink arc is the 'next'
+ arc in the iteration, but it is hard to obtain *after* deleting e.
+ ****************************************************************************/
+
+int gp_DeleteEdge(graphP theGraph, int e, int nextLink)
+{
+    // Calculate the nextArc after e so that, when e is deleted, the return result
+    // informs a calling loop of the next edge to be processed.
+    int nextArc = gp_GetAdjacentArc(theGraph, e, nextLink);
+
+    // Delete the edge records e and eTwin from their adjacency lists.
+    gp_DetachArc(theGraph, e);
+    gp_DetachArc(theGraph, gp_GetTwinArc(theGraph, e));
+
+    // Clear the two edge records
+    // (the bit twiddle (e & ~1) chooses the lesser of e and its twin arc)
+#if NIL == 0
+    memset(theGraph->E + (e & ~1), NIL_CHAR, sizeof(edgeRec) << 1);
+#else
+    _InitEdgeRec(theGraph, e);
+    _InitEdgeRec(theGraph, gp_GetTwinArc(theGraph, e));
+#endif
+
+    // Now we reduce the number of edges in the data structure
+    theGraph->M--;
+
+    // If records e and eTwin were not the last in the edge record array,
+    // then record a new hole in the edge array. */
+    if (e < gp_EdgeInUseIndexBound(theGraph))
+    {
+        sp_Push(theGraph->edgeHoles, e);
+    }
+
+    // Return the previously calculated successor of e.
+    return nextArc;
+}
+
+/********************************************************************
+ _RestoreArc()
+ This routine reinserts an arc into the edge list from which it
+ was previously removed by gp_DetachArc().
+
+ The assumed processing model is that arcs will be restored in reverse
+ of the order in which they were hidden, i.e. it is assumed that the
+ hidden arcs will be pushed on a stack and the arcs will be popped
+ from the stack for restoration.
+ ********************************************************************/
+
+void _RestoreArc(graphP theGraph, int arc)
+{
+    int nextArc = gp_GetNextArc(theGraph, arc),
+        prevArc = gp_GetPrevArc(theGraph, arc);
+
+    if (gp_IsArc(nextArc))
+        gp_SetPrevArc(theGraph, nextArc, arc);
+    else
+        gp_SetLastArc(theGraph, gp_GetNeighbor(theGraph, gp_GetTwinArc(theGraph, arc)), arc);
+
+    if (gp_IsArc(prevArc))
+        gp_SetNextArc(theGraph, prevArc, arc);
+    else
+        gp_SetFirstArc(theGraph, gp_GetNeighbor(theGraph, gp_GetTwinArc(theGraph, arc)), arc);
+}
+
+/********************************************************************
+ gp_HideEdge()
+ This routine removes the two arcs of an edge from the adjacency lists
+ of its endpoint vertices, but does not delete them from the storage
+ data structure.
+
+ Many algorithms must temporarily remove an edge, perform some
+ calculation, and eventually put the edge back. This routine supports
+ that operation.
+
+ For each arc, the neighboring adjacency list nodes are cross-linked,
+ but the links in the arc are retained because they indicate the
+ neighbor arcs to which the arc can be reattached by gp_RestoreEdge().
+ ********************************************************************/
+
+void gp_HideEdge(graphP theGraph, int e)
+{
+    theGraph->functions.fpHideEdge(theGraph, e);
+}
+
+void _HideEdge(graphP theGraph, int e)
+{
+    gp_DetachArc(theGraph, e);
+    gp_DetachArc(theGraph, gp_GetTwinArc(theGraph, e));
+}
+
+/********************************************************************
+ gp_RestoreEdge()
+ This routine reinserts two two arcs of an edge into the adjacency
+ lists of the edge's endpoints, the arcs having been previously
+ removed by gp_HideEdge().
+
+ The assumed processing model is that edges will be restored in
+ reverse of the order in which they were hidden, i.e. it is assumed
+ that the hidden edges will be pushed on a stack and the edges will
+ be popped from the stack for restoration.
+
+ Note: Since both arcs of an edge are restored, only one arc need
+        be pushed on the stack for restoration.  This routine
+        restores the two arcs in the opposite order from the order
+        in which they are hidden by gp_HideEdge().
+ ********************************************************************/
+
+void gp_RestoreEdge(graphP theGraph, int e)
+{
+    theGraph->functions.fpRestoreEdge(theGraph, e);
+}
+
+void _RestoreEdge(graphP theGraph, int e)
+{
+    _RestoreArc(theGraph, gp_GetTwinArc(theGraph, e));
+    _RestoreArc(theGraph, e);
+}
+
+/********************************************************************
+ _HideInternalEdges()
+ Pushes onto the graph's stack and hides all arc nodes of the vertex
+ except the first and last arcs in the adjacency list of the vertex.
+ This method is typically called on a vertex that is on the external
+ face of a biconnected component, because the first and last arcs are
+ the ones that attach the vertex to the external face cycle, and any
+ other arcs in the adjacency list are inside that cycle.
+
+ This method uses the stack. The caller is expected to clear the stack
+ or save the stack size before invocation, since the stack size is
+ needed to _RestoreInternalEdges().
+ ********************************************************************/
+
+int _HideInternalEdges(graphP theGraph, int vertex)
+{
+    int e = gp_GetFirstArc(theGraph, vertex);
+
+    // If the vertex adjacency list is empty or if it contains
+    // only one edge, then there are no *internal* edges to hide
+    if (e == gp_GetLastArc(theGraph, vertex))
+        return OK;
+
+    // Start with the first internal edge
+    e = gp_GetNextArc(theGraph, e);
+
+    // Cycle through all the edges, pushing each except stop
+    // before pushing the last edge, which is not internal
+    while (e != gp_GetLastArc(theGraph, vertex))
+    {
+        sp_Push(theGraph->theStack, e);
+        gp_HideEdge(theGraph, e);
+        e = gp_GetNextArc(theGraph, e);
+    }
+
+    return OK;
+}
+
+/********************************************************************
+ _RestoreInternalEdges()
+ Reverses the effects of _HideInternalEdges()
+ ********************************************************************/
+
+int _RestoreInternalEdges(graphP theGraph, int stackBottom)
+{
+    return _RestoreHiddenEdges(theGraph, stackBottom);
+}
+
+/********************************************************************
+ _RestoreHiddenEdges()
+
+ Each entry on the stack, down to stackBottom, is assumed to be an
+ edge record (arc) pushed in concert with invoking gp_HideEdge().
+ Each edge is restored using gp_RestoreEdge() in exact reverse of the
+ hiding order.  The stack is reduced in size to stackBottom.
+
+ Returns OK on success, NOTOK on internal failure.
+ ********************************************************************/
+
+int _RestoreHiddenEdges(graphP theGraph, int stackBottom)
+{
+    int e;
+
+    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
+    {
+        sp_Pop(theGraph->theStack, e);
+        if (gp_IsNotArc(e))
+            return NOTOK;
+        gp_RestoreEdge(theGraph, e);
+    }
+
+    return OK;
+}
+
+/********************************************************************
+ gp_HideVertex()
+
+ Pushes onto the graph's stack and hides all arc nodes of the vertex.
+ Additional integers are then pushed so that the result is reversible
+ by gp_RestoreVertex().  See that method for details on the expected
+ stack segment.
+
+ Returns OK for success, NOTOK for internal failure.
+ ********************************************************************/
+
+int gp_HideVertex(graphP theGraph, int vertex)
+{
+    if (gp_IsNotVertex(vertex))
+        return NOTOK;
+
+    return theGraph->functions.fpHideVertex(theGraph, vertex);
+}
+
+int _HideVertex(graphP theGraph, int vertex)
+{
+    int hiddenEdgeStackBottom = sp_GetCurrentSize(theGraph->theStack);
+    int e = gp_GetFirstArc(theGraph, vertex);
+
+    // The edges of the vertex plus the seven additional integers must fit on the stack
+    if (sp_GetCapacity(theGraph->theStack) - hiddenEdgeStackBottom < gp_GetVertexDegree(theGraph, vertex) + 7)
+        return NOTOK;
+
+    // Cycle through all the edges, pushing and hiding each
+    while (gp_IsArc(e))
+    {
+        sp_Push(theGraph->theStack, e);
+        gp_HideEdge(theGraph, e);
+        e = gp_GetNextArc(theGraph, e);
+    }
+
+    // Push the additional integers needed by gp_RestoreVertex()
+    sp_Push(theGraph->theStack, hiddenEdgeStackBottom);
+    sp_Push(theGraph->theStack, NIL);
+    sp_Push(theGraph->theStack, NIL);
+    sp_Push(theGraph->theStack, NIL);
+    sp_Push(theGraph->theStack, NIL);
+    sp_Push(theGraph->theStack, NIL);
+    sp_Push(theGraph->theStack, vertex);
+
+    return OK;
+}
+
+/********************************************************************
+ gp_ContractEdge()
+
+ Contracts the edge e=(u,v).  This hides the edge (both e and its
+ twin arc), and it also identifies vertex v with u.
+ See gp_IdentifyVertices() for further details.
+
+ Returns OK for success, NOTOK for internal failure.
+ ********************************************************************/
+
+int gp_ContractEdge(graphP theGraph, int e)
+{
+    if (gp_IsNotArc(e))
+        return NOTOK;
+
+    return theGraph->functions.fpContractEdge(theGraph, e);
+}
+
+int _ContractEdge(graphP theGraph, int e)
+{
+    int eBefore, u, v, hiddenEdgeStackBottom;
+
+    if (gp_IsNotArc(e))
+        return NOTOK;
+
+    u = gp_GetNeighbor(theGraph, gp_GetTwinArc(theGraph, e));
+    v = gp_GetNeighbor(theGraph, e);
+
+    hiddenEdgeStackBottom = sp_GetCurrentSize(theGraph->theStack);
+
+    // The hidden edges plus the seven additional integers must fit on the stack
+    if (sp_GetCapacity(theGraph->theStack) - hiddenEdgeStackBottom < gp_GetVertexDegree(theGraph, v) + 7)
+        return NOTOK;
+
+    eBefore = gp_GetNextArc(theGraph, e);
+    sp_Push(theGraph->theStack, e);
+    gp_HideEdge(theGraph, e);
+
+    if (gp_IdentifyVertices(theGraph, u, v, eBefore) != OK)
+        return NOTOK;
+
+    // The vertex identification pushes K hidden edges, then an integer
+    // indicating where the top of stack was before those edges were hidden,
+    // then six more integers to indicate edges that were moved from v to u.
+    // That "hidden edges stackBottom" integer must indicate where the top of
+    // stack was before e was pushed, so that gp_RestoreVertex() restores e too.
+    sp_Set(theGraph->theStack, sp_GetCurrentSize(theGraph->theStack) - 7, hiddenEdgeStackBottom);
+
+    return OK;
+}
+
+/********************************************************************
+ gp_IdentifyVertices()
+
+ Identifies vertex v with vertex u by transferring all adjacencies
+ of v to u.  Any duplicate edges are removed as described below.
+ The non-duplicate edges of v are added to the adjacency list of u
+ without disturbing their relative order, and they are added before
+ the edge record eBefore in u's list. If eBefore is NIL, then the
+ edges are simply appended to u's list.
+
+ If u and v are adjacent, then gp_HideEdge() is invoked to remove
+ the edge e=(u,v). Then, the edges of v that indicate neighbors of
+ u are also hidden.  This is done by setting the visited flags of
+ u's neighbors, then traversing the adjacency list of v.  For each
+ visited neighbor of v, the edge is hidden because it would duplicate
+ an adjacency already expressed in u's list. Finally, the remaining
+ edges of v are moved to u's list, and each twin arc is adjusted
+ to indicate u as a neighbor rather than v.
+
+ This routine assumes that the visited flags are clear beforehand,
+ and visited flag settings made herein are cleared before returning.
+
+ The following are pushed, in order, onto the graph's built-in stack:
+ 1) an integer for each hidden edge
+ 2) the stack size before any hidden edges were pushed
+ 3) six integers that indicate u, v and the edges moved from v to u
+
+ An algorithm that identifies a series of vertices, either through
+ directly calling this method or via gp_ContractEdge(), can unwind
+ the identifications using gp_RestoreIdentifications(), which
+ invokes gp_RestoreVertex() repeatedly.
+
+ Returns OK on success, NOTOK on internal failure
+ ********************************************************************/
+
+int gp_IdentifyVertices(graphP theGraph, int u, int v, int eBefore)
+{
+    return theGraph->functions.fpIdentifyVertices(theGraph, u, v, eBefore);
+}
+
+int _IdentifyVertices(graphP theGraph, int u, int v, int eBefore)
+{
+    int e = gp_GetNeighborEdgeRecord(theGraph, u, v);
+    int hiddenEdgeStackBottom, eBeforePred;
+
+    // If the vertices are adjacent, then the identification is
+    // essentially an edge contraction.
+    if (gp_IsArc(e))
+    {
+        // The edge contraction operation pushes one hidden edge, then
+        // recursively calls this method, then makes the stack segment
+        // indicate the hidden edge, too.
+        return gp_ContractEdge(theGraph, e);
+    }
+
+    // Now, u and v are not adjacent. Before we do any edge hiding or
+    // moving, we record the current stack size, as this is the
+    // stackBottom for the edges that will be hidden next.
+    hiddenEdgeStackBottom = sp_GetCurrentSize(theGraph->theStack);
+
+    // The hidden edges plus the seven additional integers must fit on the stack
+    if (sp_GetCapacity(theGraph->theStack) - hiddenEdgeStackBottom < gp_GetVertexDegree(theGraph, v) + 7)
+        return NOTOK;
+
+    // Mark as visited all neighbors of u
+    e = gp_GetFirstArc(theGraph, u);
+    while (gp_IsArc(e))
+    {
+        if (gp_GetVertexVisited(theGraph, gp_GetNeighbor(theGraph, e)))
+            return NOTOK;
+
+        gp_SetVertexVisited(theGraph, gp_GetNeighbor(theGraph, e));
+        e = gp_GetNextArc(theGraph, e);
+    }
+
+    // For each edge record of v, if the neighbor is visited, then
+    // push and hide the edge.
+    e = gp_GetFirstArc(theGraph, v);
+    while (gp_IsArc(e))
+    {
+        if (gp_GetVertexVisited(theGraph, gp_GetNeighbor(theGraph, e)))
+        {
+            sp_Push(theGraph->theStack, e);
+            gp_HideEdge(theGraph, e);
+        }
+        e = gp_GetNextArc(theGraph, e);
+    }
+
+    // Mark as unvisited all neighbors of u
+    e = gp_GetFirstArc(theGraph, u);
+    while (gp_IsArc(e))
+    {
+        gp_ClearVertexVisited(theGraph, gp_GetNeighbor(theGraph, e));
+        e = gp_GetNextArc(theGraph, e);
+    }
+
+    // Push the hiddenEdgeStackBottom as a record of how many hidden
+    // edges were pushed (also, see above for Contract Edge adjustment)
+    sp_Push(theGraph->theStack, hiddenEdgeStackBottom);
+
+    // Moving v's adjacency list to u is aided by knowing the predecessor
+    // of u's eBefore (the edge record in u's list before which the
+    // edge records of v will be added).
+    eBeforePred = gp_IsArc(eBefore)
+                      ? gp_GetPrevArc(theGraph, eBefore)
+                      : gp_GetLastArc(theGraph, u);
+
+    // Turns out we only need to record six integers related to the edges
+    // being moved in order to easily restore them later.
+    sp_Push(theGraph->theStack, eBefore);
+    sp_Push(theGraph->theStack, gp_GetLastArc(theGraph, v));
+    sp_Push(theGraph->theStack, gp_GetFirstArc(theGraph, v));
+    sp_Push(theGraph->theStack, eBeforePred);
+    sp_Push(theGraph->theStack, u);
+    sp_Push(theGraph->theStack, v);
+
+    // For the remaining edge records of v, reassign the 'v' member
+    //    of each twin arc to indicate u rather than v.
+    e = gp_GetFirstArc(theGraph, v);
+    while (gp_IsArc(e))
+    {
+        gp_SetNeighbor(theGraph, gp_GetTwinArc(theGraph, e), u);
+        e = gp_GetNextArc(theGraph, e);
+    }
+
+    // If v has any edges left after hiding edges, indicating common neighbors with u, ...
+    if (gp_IsArc(gp_GetFirstArc(theGraph, v)))
+    {
+        // Then perform the list union of v into u between eBeforePred and eBefore
+        if (gp_IsArc(eBeforePred))
+        {
+            if (gp_IsArc(gp_GetFirstArc(theGraph, v)))
+            {
+                gp_SetNextArc(theGraph, eBeforePred, gp_GetFirstArc(theGraph, v));
+                gp_SetPrevArc(theGraph, gp_GetFirstArc(theGraph, v), eBeforePred);
+            }
+        }
+        else
+        {
+            gp_SetFirstArc(theGraph, u, gp_GetFirstArc(theGraph, v));
+        }
+
+        if (gp_IsArc(eBefore))
+        {
+            if (gp_IsArc(gp_GetLastArc(theGraph, v)))
+            {
+                gp_SetNextArc(theGraph, gp_GetLastArc(theGraph, v), eBefore);
+                gp_SetPrevArc(theGraph, eBefore, gp_GetLastArc(theGraph, v));
+            }
+        }
+        else
+        {
+            gp_SetLastArc(theGraph, u, gp_GetLastArc(theGraph, v));
+        }
+
+        gp_SetFirstArc(theGraph, v, NIL);
+        gp_SetLastArc(theGraph, v, NIL);
+    }
+
+    return OK;
+}
+
+/********************************************************************
+ gp_RestoreVertex()
+
+ This method assumes the built-in graph stack contents are the result
+ of vertex hide, vertex identify and edge contract operations.
+ This content consists of segments of integers, each segment
+ corresponding to the removal of a vertex during an edge contraction
+ or vertex identification in which a vertex v was merged into a
+ vertex u.  The segment contains two blocks of integers.
+ The first block contains information about u, v, the edge records
+ in v's adjacency list that were added to u, and where in u's
+ adjacency list they were added.  The second block of integers
+ contains a list of edges incident to v that were hidden from the
+ graph because they were incident to neighbors of v that were also
+ neighbors of u (so they would have produced duplicate edges had
+ they been left in v's adjacency list when it was merged with u's
+ adjacency list).
+
+ This method pops the first block of the segment off the stack and
+ uses the information to help remove v's adjacency list from u and
+ restore it into v.  Then, the second block is removed from the
+ stack, and each indicated edge is restored from the hidden state.
+
+ It is anticipated that this method will be overloaded by extension
+ algorithms to perform some processing as each vertex is restored.
+ Before restoration, the topmost segment has the following structure:
+
+ ... FHE ... LHE HESB e_u_succ e_v_last e_v_first e_u_pred u v
+      ^------------|
+
+ FHE = First hidden edge
+ LHE = Last hidden edge
+ HESB = Hidden edge stack bottom
+ e_u_succ, e_u_pred = The edges of u between which the edges of v
+                      were inserted. NIL can appear if the edges of v
+                      were added to the beginning or end of u's list
+ e_v_first, e_v_last = The first and last edges of v's list, once
+                       the hidden edges were removed
+
+ Returns OK for success, NOTOK for internal failure.
+ ********************************************************************/
+
+int gp_RestoreVertex(graphP theGraph)
+{
+    return theGraph->functions.fpRestoreVertex(theGraph);
+}
+
+int _RestoreVertex(graphP theGraph)
+{
+    int u, v, e_u_succ, e_u_pred, e_v_first, e_v_last, HESB, e;
+
+    if (sp_GetCurrentSize(theGraph->theStack) < 7)
+        return NOTOK;
+
+    sp_Pop(theGraph->theStack, v);
+    sp_Pop(theGraph->theStack, u);
+    sp_Pop(theGraph->theStack, e_u_pred);
+    sp_Pop(theGraph->theStack, e_v_first);
+    sp_Pop(theGraph->theStack, e_v_last);
+    sp_Pop(theGraph->theStack, e_u_succ);
+
+    // If u is not NIL, then vertex v was identified with u.  Otherwise, v was
+    // simply hidden, so we skip to restoring the hidden edges.
+    if (gp_IsVertex(u))
+    {
+        // Remove v's adjacency list from u, including accounting for degree 0 case
+        if (gp_IsArc(e_u_pred))
+        {
+            gp_SetNextArc(theGraph, e_u_pred, e_u_succ);
+            // If the successor edge exists, link it to the predecessor,
+            // otherwise the predecessor is the new last arc
+            if (gp_IsArc(e_u_succ))
+                gp_SetPrevArc(theGraph, e_u_succ, e_u_pred);
+            else
+                gp_SetLastArc(theGraph, u, e_u_pred);
+        }
+        else if (gp_IsArc(e_u_succ))
+        {
+            // The successor arc exists, but not the predecessor,
+            // so the successor is the new first arc
+            gp_SetPrevArc(theGraph, e_u_succ, NIL);
+            gp_SetFirstArc(theGraph, u, e_u_succ);
+        }
+        else
+        {
+            // Just in case u was degree zero
+            gp_SetFirstArc(theGraph, u, NIL);
+            gp_SetLastArc(theGraph, u, NIL);
+        }
+
+        // Place v's adjacency list into v, including accounting for degree 0 case
+        gp_SetFirstArc(theGraph, v, e_v_first);
+        gp_SetLastArc(theGraph, v, e_v_last);
+        if (gp_IsArc(e_v_first))
+            gp_SetPrevArc(theGraph, e_v_first, NIL);
+        if (gp_IsArc(e_v_last))
+            gp_SetNextArc(theGraph, e_v_last, NIL);
+
+        // For each edge record restored to v's adjacency list, reassign the 'v' member
+        //    of each twin arc to indicate v rather than u.
+        e = e_v_first;
+        while (gp_IsArc(e))
+        {
+            gp_SetNeighbor(theGraph, gp_GetTwinArc(theGraph, e), v);
+            e = (e == e_v_last ? NIL : gp_GetNextArc(theGraph, e));
+        }
+    }
+
+    // Restore the hidden edges of v, if any
+    sp_Pop(theGraph->theStack, HESB);
+    return _RestoreHiddenEdges(theGraph, HESB);
+}
+
+/********************************************************************
+ gp_RestoreVertices()
+
+ This method assumes the built-in graph stack has content consistent
+ with numerous vertex identification or edge contraction operations.
+ This method unwinds the stack, moving edges back to their original
+ vertex owners and restoring hidden edges.
+ This method is a simple iterator that invokes gp_RestoreVertex()
+ until the stack is empty, so extension algorithms are more likely
+ to overload gp_RestoreVertex().
+
+ Returns OK for success, NOTOK for internal failure.
+ ********************************************************************/
+
+int gp_RestoreVertices(graphP theGraph)
+{
+    while (sp_NonEmpty(theGraph->theStack))
+    {
+        if (gp_RestoreVertex(theGraph) != OK)
+            return NOTOK;
+    }
+
+    return OK;
+}
+
+/****************************************************************************
+ _ComputeArcType()
+ This is just a little helper function that automates a sequence of decisions
+ that has to be made a number of times.
+ An edge record is being added to the adjacency list of a; it indicates that
+ b is a neighbor.  The edgeType can be either 'tree' (EDGE_TYPE_PARENT or
+ EDGE_TYPE_CHILD) or 'cycle' (EDGE_TYPE_BACK or EDGE_TYPE_FORWARD).
+ If a or b is a root copy, we translate to the non-virtual counterpart,
+ then wedetermine which has the lesser DFI.  If a has the lower DFI then the
+ edge record is a tree edge to a child (EDGE_TYPE_CHILD) if edgeType indicates
+ a tree edge.  If edgeType indicates a cycle edge, then it is a forward cycle
+ edge (EDGE_TYPE_FORWARD) to a descendant.
+ Symmetric conditions define the types for a > b.
+ ****************************************************************************/
+
+int _ComputeArcType(graphP theGraph, int a, int b, int edgeType)
+{
+    a = gp_IsVirtualVertex(theGraph, a) ? gp_GetPrimaryVertexFromRoot(theGraph, a) : a;
+    b = gp_IsVirtualVertex(theGraph, b) ? gp_GetPrimaryVertexFromRoot(theGraph, b) : b;
+
+    if (a < b)
+        return edgeType == EDGE_TYPE_PARENT || edgeType == EDGE_TYPE_CHILD ? EDGE_TYPE_CHILD : EDGE_TYPE_FORWARD;
+
+    return edgeType == EDGE_TYPE_PARENT || edgeType == EDGE_TYPE_CHILD ? EDGE_TYPE_PARENT : EDGE_TYPE_BACK;
+}
+
+/****************************************************************************
+ _SetEdgeType()
+ When we are restoring an edge, we must restore its type (tree edge or cycle edge).
+ We can deduce what the type was based on other information in the graph. Each
+ arc of the edge gets the appropriate type setting (parent/child or back/forward).
+ This method runs in constant time plus the degree of vertex u, or constant
+ time if u is known to have a degree bound by a constant.
+ ****************************************************************************/
+
+int _SetEdgeType(graphP theGraph, int u, int v)
+{
+    int e, eTwin, u_orig, v_orig;
+
+    // If u or v is a virtual vertex (a root copy), then get the non-virtual counterpart.
+    u_orig = gp_IsVirtualVertex(theGraph, u) ? (gp_GetPrimaryVertexFromRoot(theGraph, u)) : u;
+    v_orig = gp_IsVirtualVertex(theGraph, v) ? (gp_GetPrimaryVertexFromRoot(theGraph, v)) : v;
+
+    // Get the edge for which we will set the type
+
+    e = gp_GetNeighborEdgeRecord(theGraph, u, v);
+    eTwin = gp_GetTwinArc(theGraph, e);
+
+    // If u_orig is the parent of v_orig, or vice versa, then the edge is a tree edge
+
+    if (gp_GetVertexParent(theGraph, v_orig) == u_orig ||
+        gp_GetVertexParent(theGraph, u_orig) == v_orig)
+    {
+        if (u_orig > v_orig)
+        {
+            gp_ResetEdgeType(theGraph, e, EDGE_TYPE_PARENT);
+            gp_ResetEdgeType(theGraph, eTwin, EDGE_TYPE_CHILD);
+        }
+        else
+        {
+            gp_ResetEdgeType(theGraph, eTwin, EDGE_TYPE_PARENT);
+            gp_ResetEdgeType(theGraph, e, EDGE_TYPE_CHILD);
+        }
+    }
+
+    // Otherwise it is a back edge
+
+    else
+    {
+        if (u_orig > v_orig)
+        {
+            gp_ResetEdgeType(theGraph, e, EDGE_TYPE_BACK);
+            gp_ResetEdgeType(theGraph, eTwin, EDGE_TYPE_FORWARD);
+        }
+        else
+        {
+            gp_ResetEdgeType(theGraph, eTwin, EDGE_TYPE_BACK);
+            gp_ResetEdgeType(theGraph, e, EDGE_TYPE_FORWARD);
+        }
+    }
+
+    return OK;
+}
+
+/********************************************************************
+ _DeleteUnmarkedEdgesInBicomp()
+
+ This function deletes from a given biconnected component all edges
+ whose visited member is zero.
+
+ The stack is used but preserved. In debug mode, NOTOK can result if
+ there is a stack overflow. This method pushes at most one integer
+ per vertex in the bicomp.
+
+ Returns OK on success, NOTOK on implementation failure
+ ********************************************************************/
+
+int _DeleteUnmarkedEdgesInBicomp(graphP theGraph, int BicompRoot)
+{
+    int V, e;
+    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
+
+    sp_Push(theGraph->theStack, BicompRoot);
+    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
+    {
+        sp_Pop(theGraph->theStack, V);
+
+        e = gp_GetFirstArc(theGraph, V);
+        while (gp_IsArc(e))
+        {
+            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
+                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
+
+            e = gp_GetEdgeVisited(theGraph, e) ? gp_GetNextArc(theGraph, e) : gp_DeleteEdge(theGraph, e, 0);
+        }
+    }
+    return OK;
+}
+
+/********************************************************************
+ _ClearInvertedFlagsInBicomp()
+
+ This function clears the inverted flag markers on any edges in a
+ given biconnected component.
+
+ The stack is used but preserved. In debug mode, NOTOK can result if
+ there is a stack overflow. This method pushes at most one integer
+ per vertex in the bicomp.
+
+ Returns OK on success, NOTOK on implementation failure
+ ********************************************************************/
+
+int _ClearInvertedFlagsInBicomp(graphP theGraph, int BicompRoot)
+{
+    int V, e;
+    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
+
+    sp_Push(theGraph->theStack, BicompRoot);
+    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
+    {
+        sp_Pop(theGraph->theStack, V);
+
+        e = gp_GetFirstArc(theGraph, V);
+        while (gp_IsArc(e))
+        {
+            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
+            {
+                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
+                gp_ClearEdgeFlagInverted(theGraph, e);
+            }
+
+            e = gp_GetNextArc(theGraph, e);
+        }
+    }
+    return OK;
+}
+
+/********************************************************************
+ _GetBicompSize()
+
+ Determine the number of vertices in the bicomp.
+
+ The stack is used but preserved. In debug mode, NOTOK can result if
+ there is a stack overflow. This method pushes at most one integer
+ per vertex in the bicomp.
+
+ Returns a positive number on success, NOTOK on implementation failure
+ ********************************************************************/
+
+int _GetBicompSize(graphP theGraph, int BicompRoot)
+{
+    int V, e;
+    int theSize = 0;
+    int stackBottom = sp_GetCurrentSize(theGraph->theStack);
+
+    sp_Push(theGraph->theStack, BicompRoot);
+    while (sp_GetCurrentSize(theGraph->theStack) > stackBottom)
+    {
+        sp_Pop(theGraph->theStack, V);
+        theSize++;
+        e = gp_GetFirstArc(theGraph, V);
+        while (gp_IsArc(e))
+        {
+            if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
+                sp_Push(theGraph->theStack, gp_GetNeighbor(theGraph, e));
+
+            e = gp_GetNextArc(theGraph, e);
+        }
+    }
+    return theSize;
+}
+
+/********************************************************************
+ debugNOTOK()
+ This function provides a non-void wrapper for exit().
+ This is useful for debugging as it allows compilation of an exit
+ command in places where NOTOK is returned.
+ In exhaustive testing, we want to bail on the first NOTOK that occurs.
+ Comment out the exit() call to get a stack trace.
+ ********************************************************************/
+
+int debugNOTOK(void)
+{
+    // exit(-1);
+    return 0; // NOTOK is normally defined to be zero
+}
diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 1b925d6..6746d7b 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -1,1123 +1,1123 @@
-/*
-Copyright (c) 1997-2022, John M. Boyer
-All rights reserved.
-See the LICENSE.TXT file for licensing information.
-*/
-
-#include <stdlib.h>
-#include <string.h>
-#include <ctype.h>
-
-#include "../graph.h"
-#include "g6-read-iterator.h"
-#include "g6-write-iterator.h"
-
-/* Private functions (exported to system) */
-
-int _ReadAdjMatrix(graphP theGraph, FILE *Infile, strBufP inBuf);
-int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf);
-int _WriteAdjList(graphP theGraph, FILE *Outfile, strBufP outBuf);
-int _WriteAdjMatrix(graphP theGraph, FILE *Outfile, strBufP outBuf);
-int _WriteDebugInfo(graphP theGraph, FILE *Outfile);
-
-/********************************************************************
- _ReadAdjMatrix()
- This function reads the undirected graph in upper triangular matrix format.
- Though O(N^2) time is required, this routine is useful during
- reliability testing due to the wealth of graph generating software
- that uses this format for output.
- Returns: OK, NOTOK on internal error, NONEMBEDDABLE if too many edges
- ********************************************************************/
-
-int _ReadAdjMatrix(graphP theGraph, FILE *Infile, strBufP inBuf)
-{
-    int N = -1;
-    int v, w, Flag;
-
-    if (Infile == NULL && inBuf == NULL)
-        return NOTOK;
-
-    // Read the number of vertices from the first line of the file
-    if (Infile != NULL)
-        fscanf(Infile, " %d ", &N);
-    else
-    {
-        sb_ReadSkipWhitespace(inBuf);
-        sscanf(sb_GetReadString(inBuf), " %d ", &N);
-        sb_ReadSkipInteger(inBuf);
-        sb_ReadSkipWhitespace(inBuf);
-    }
-
-    // Initialize the graph based on the number of vertices
-    if (gp_InitGraph(theGraph, N) != OK)
-        return NOTOK;
-
-    // Read an upper-triangular matrix row for each vertex
-    // Note that for the last vertex, zero flags are read, per the upper triangular format
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-    {
-        gp_SetVertexIndex(theGraph, v, v);
-        for (w = v + 1; gp_VertexInRange(theGraph, w); w++)
-        {
-            // Read each of v's w-neighbor flags
-            if (Infile != NULL)
-            {
-                if (fscanf(Infile, " %1d", &Flag) != 1)
-                    return NOTOK;
-            }
-            else
-            {
-                sb_ReadSkipWhitespace(inBuf);
-                if (sscanf(sb_GetReadString(inBuf), " %1d", &Flag) != 1)
-                    return NOTOK;
-                sb_ReadSkipChar(inBuf);
-            }
-
-            // Add the edge (v, w) if the flag is raised
-            if (Flag)
-            {
-                if (gp_DynamicAddEdge(theGraph, v, 0, w, 0) != OK)
-                    return NOTOK;
-            }
-        }
-    }
-
-    // The whitespace after the last flag is not extra data
-    if (Infile != NULL)
-        fscanf(Infile, " ");
-    else
-        sb_ReadSkipWhitespace(inBuf);
-
-    return OK;
-}
-
-/********************************************************************
- _ReadAdjList()
- This function reads the graph in adjacency list format.
-
- The file format is
- On the first line    : N= number of vertices
- On N subsequent lines: #: a b c ... -1
- where # is a vertex number and a, b, c, ... are its neighbors.
-
- NOTE:  The vertex number is for file documentation only.  It is an
-        error if the vertices are not in sorted order in the file.
-
- NOTE:  If a loop edge is found, it is ignored without error.
-
- NOTE:  This routine supports digraphs.  For a directed arc (v -> W),
-        an edge record is created in both vertices, v and W, and the
-        edge record in v's adjacency list is marked OUTONLY while the
-        edge record in W's list is marked INONLY.
-        This makes it easy to used edge directedness when appropriate
-        but also seamlessly process the corresponding undirected graph.
-
- Returns: OK on success, NONEMBEDDABLE if success except too many edges
-          NOTOK on file content error (or internal error)
- ********************************************************************/
-
-int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
-{
-    int N = -1;
-    int v, W, adjList, e, indexValue, ErrorCode;
-    int zeroBased = FALSE;
-
-    if (Infile == NULL && inBuf == NULL)
-        return NOTOK;
-
-    // Skip the "N=" and then read the N value for number of vertices
-    if (Infile != NULL)
-    {
-        fgetc(Infile);
-        fgetc(Infile);
-        fscanf(Infile, " %d ", &N);
-    }
-    else
-    {
-        sb_ReadSkipChar(inBuf);
-        sb_ReadSkipChar(inBuf);
-        sb_ReadSkipWhitespace(inBuf);
-        sscanf(sb_GetReadString(inBuf), " %d ", &N);
-        sb_ReadSkipInteger(inBuf);
-        sb_ReadSkipWhitespace(inBuf);
-    }
-
-    // Initialize theGraph based on the number of vertices in the input
-    if (gp_InitGraph(theGraph, N) != OK)
-        return NOTOK;
-
-    // Clear the visited members of the vertices so they can be used
-    // during the adjacency list read operation
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-        gp_SetVertexVisitedInfo(theGraph, v, NIL);
-
-    // Do the adjacency list read operation for each vertex in order
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-    {
-        // Read the vertex number
-        if (Infile != NULL)
-        {
-            if (fscanf(Infile, "%d", &indexValue) != 1)
-                return NOTOK;
-        }
-        else
-        {
-            if (sscanf(sb_GetReadString(inBuf), "%d", &indexValue) != 1)
-                return NOTOK;
-            sb_ReadSkipInteger(inBuf);
-        }
-
-        if (indexValue == 0 && v == gp_GetFirstVertex(theGraph))
-            zeroBased = TRUE;
-        indexValue += zeroBased ? gp_GetFirstVertex(theGraph) : 0;
-
-        gp_SetVertexIndex(theGraph, v, indexValue);
-
-        // The vertices are expected to be in numeric ascending order
-        if (gp_GetVertexIndex(theGraph, v) != v)
-            return NOTOK;
-
-        // Skip the colon after the vertex number
-        if (Infile != NULL)
-            fgetc(Infile);
-        else
-        {
-            if (*sb_GetReadString(inBuf) == '\0')
-                return NOTOK;
-            sb_ReadSkipChar(inBuf);
-        }
-
-        // If the vertex already has a non-empty adjacency list, then it is
-        // the result of adding edges during processing of preceding vertices.
-        // The list is removed from the current vertex v and saved for use
-        // during the read operation for v.  Adjacencies to preceding vertices
-        // are pulled from this list, if present, or added as directed edges
-        // if not.  Adjacencies to succeeding vertices are added as undirected
-        // edges, and will be corrected later if the succeeding vertex does not
-        // have the matching adjacency using the following mechanism.  After the
-        // read operation for a vertex v, any adjacency nodes left in the saved
-        // list are converted to directed edges from the preceding vertex to v.
-        adjList = gp_GetFirstArc(theGraph, v);
-        if (gp_IsArc(adjList))
-        {
-            // Store the adjacency node location in the visited member of each
-            // of the preceding vertices to which v is adjacent so that we can
-            // efficiently detect the adjacency during the read operation and
-            // efficiently find the adjacency node.
-            e = gp_GetFirstArc(theGraph, v);
-            while (gp_IsArc(e))
-            {
-                gp_SetVertexVisitedInfo(theGraph, gp_GetNeighbor(theGraph, e), e);
-                e = gp_GetNextArc(theGraph, e);
-            }
-
-            // Make the adjacency list circular, for later ease of processing
-            gp_SetPrevArc(theGraph, adjList, gp_GetLastArc(theGraph, v));
-            gp_SetNextArc(theGraph, gp_GetLastArc(theGraph, v), adjList);
-
-            // Remove the list from the vertex
-            gp_SetFirstArc(theGraph, v, NIL);
-            gp_SetLastArc(theGraph, v, NIL);
-        }
-
-        // Read the adjacency list.
-        while (1)
-        {
-            // Read the value indicating the next adjacent vertex (or the list end)
-            if (Infile != NULL)
-            {
-                if (fscanf(Infile, " %d ", &W) != 1)
-                    return NOTOK;
-            }
-            else
-            {
-                sb_ReadSkipWhitespace(inBuf);
-                if (sscanf(sb_GetReadString(inBuf), " %d ", &W) != 1)
-                    return NOTOK;
-                sb_ReadSkipInteger(inBuf);
-                sb_ReadSkipWhitespace(inBuf);
-            }
-            W += zeroBased ? gp_GetFirstVertex(theGraph) : 0;
-
-            // A value below the valid range indicates the adjacency list end
-            if (W < gp_GetFirstVertex(theGraph))
-                break;
-
-            // A value above the valid range is an error
-            if (W > gp_GetLastVertex(theGraph))
-                return NOTOK;
-
-            // Loop edges are not supported
-            else if (W == v)
-                return NOTOK;
-
-            // If the adjacency is to a succeeding, higher numbered vertex,
-            // then we'll add an undirected edge for now
-            else if (v < W)
-            {
-                if ((ErrorCode = gp_DynamicAddEdge(theGraph, v, 0, W, 0)) != OK)
-                    return ErrorCode;
-            }
-
-            // If the adjacency is to a preceding, lower numbered vertex, then
-            // we have to pull the adjacency node from the preexisting adjList,
-            // if it is there, and if not then we have to add a directed edge.
-            else
-            {
-                // If the adjacency node (arc) already exists, then we add it
-                // as the new first arc of the vertex and delete it from adjList
-                if (gp_IsArc(gp_GetVertexVisitedInfo(theGraph, W)))
-                {
-                    e = gp_GetVertexVisitedInfo(theGraph, W);
-
-                    // Remove the arc e from the adjList construct
-                    gp_SetVertexVisitedInfo(theGraph, W, NIL);
-                    if (adjList == e)
-                    {
-                        if ((adjList = gp_GetNextArc(theGraph, e)) == e)
-                            adjList = NIL;
-                    }
-                    gp_SetPrevArc(theGraph, gp_GetNextArc(theGraph, e), gp_GetPrevArc(theGraph, e));
-                    gp_SetNextArc(theGraph, gp_GetPrevArc(theGraph, e), gp_GetNextArc(theGraph, e));
-
-                    gp_AttachFirstArc(theGraph, v, e);
-                }
-
-                // If an adjacency node to the lower numbered vertex W does not
-                // already exist, then we make a new directed arc from the current
-                // vertex v to W.
-                else
-                {
-                    // It is added as the new first arc in both vertices
-                    if ((ErrorCode = gp_DynamicAddEdge(theGraph, v, 0, W, 0)) != OK)
-                        return ErrorCode;
-
-                    // Note that this call also sets OUTONLY on the twin arc
-                    gp_SetDirection(theGraph, gp_GetFirstArc(theGraph, W), EDGEFLAG_DIRECTION_INONLY);
-                }
-            }
-        }
-
-        // If there are still adjList entries after the read operation
-        // then those entries are not representative of full undirected edges.
-        // Rather, they represent incoming directed arcs from other vertices
-        // into vertex v. They need to be added back into v's adjacency list but
-        // marked as "INONLY", while the twin is marked "OUTONLY" (by the same function).
-        while (gp_IsArc(adjList))
-        {
-            e = adjList;
-
-            gp_SetVertexVisitedInfo(theGraph, gp_GetNeighbor(theGraph, e), NIL);
-
-            if ((adjList = gp_GetNextArc(theGraph, e)) == e)
-                adjList = NIL;
-
-            gp_SetPrevArc(theGraph, gp_GetNextArc(theGraph, e), gp_GetPrevArc(theGraph, e));
-            gp_SetNextArc(theGraph, gp_GetPrevArc(theGraph, e), gp_GetNextArc(theGraph, e));
-
-            gp_AttachFirstArc(theGraph, v, e);
-            gp_SetDirection(theGraph, e, EDGEFLAG_DIRECTION_INONLY);
-        }
-    }
-
-    if (zeroBased)
-        theGraph->internalFlags |= FLAGS_ZEROBASEDIO;
-
-    return OK;
-}
-
-/********************************************************************
- _ReadLEDAGraph()
- Reads the edge list from a LEDA file containing a simple undirected graph.
- LEDA files use a one-based numbering system, which is converted to
- zero-based numbers if the graph reports starting at zero as the first vertex.
-
- Returns: OK on success, NONEMBEDDABLE if success except too many edges
-          NOTOK on file content error (or internal error)
- ********************************************************************/
-
-int _ReadLEDAGraph(graphP theGraph, FILE *Infile)
-{
-    char Line[256];
-    int N = -1;
-    int M, m, u, v, ErrorCode;
-    int zeroBasedOffset = gp_GetFirstVertex(theGraph) == 0 ? 1 : 0;
-
-    /* Skip the lines that say LEDA.GRAPH and give the node and edge types */
-    /* Read the number of vertices N, initialize the graph, then skip N. */
-    if (fgets(Line, 255, Infile) == NULL || fgets(Line, 255, Infile) == NULL ||
-        fgets(Line, 255, Infile) == NULL || fgets(Line, 255, Infile) == NULL ||
-        sscanf(Line, " %d", &N) != 1)
-        return NOTOK;
-
-    if (gp_InitGraph(theGraph, N) != OK)
-        return NOTOK;
-
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-        if (fgets(Line, 255, Infile) == NULL)
-            return NOTOK;
-
-    /* Read the number of edges */
-    if (fgets(Line, 255, Infile) == NULL || sscanf(Line, " %d", &M) != 1)
-        return NOTOK;
-
-    /* Read and add each edge, omitting loops and parallel edges */
-    for (m = 0; m < M; m++)
-    {
-        if (fgets(Line, 255, Infile) == NULL || sscanf(Line, " %d %d", &u, &v) != 2)
-            return NOTOK;
-
-        if (u < gp_GetFirstVertex(theGraph) + zeroBasedOffset || u > gp_GetLastVertex(theGraph) + zeroBasedOffset ||
-            v < gp_GetFirstVertex(theGraph) + zeroBasedOffset || v > gp_GetLastVertex(theGraph) + zeroBasedOffset)
-            return NOTOK;
-
-        if (u != v && !gp_IsNeighbor(theGraph, u - zeroBasedOffset, v - zeroBasedOffset))
-        {
-            if ((ErrorCode = gp_DynamicAddEdge(theGraph, u - zeroBasedOffset, 0, v - zeroBasedOffset, 0)) != OK)
-                return ErrorCode;
-        }
-    }
-
-    if (zeroBasedOffset)
-        theGraph->internalFlags |= FLAGS_ZEROBASEDIO;
-
-    return OK;
-}
-
-/********************************************************************
- gp_Read()
- Opens the given file, determines whether it is in adjacency list or
- matrix format based on whether the file start with N or just a number,
- calls the appropriate read function, then closes the file and returns
- the graph.
-
- Digraphs and loop edges are not supported in the adjacency matrix format,
- which is upper triangular.
-
- In the adjacency list format, digraphs are supported.  Loop edges are
- ignored without producing an error.
-
- Pass "stdin" for the FileName to read from the stdin stream
-
- Returns: OK, NOTOK on internal error, NONEMBEDDABLE if too many edges
- ********************************************************************/
-
-int gp_Read(graphP theGraph, char *FileName)
-{
-    FILE *Infile;
-    bool extraDataAllowed = false;
-    char lineBuff[255];
-    int RetVal;
-
-    if (theGraph == NULL || FileName == NULL)
-        return NOTOK;
-
-    if (strcmp(FileName, "stdin") == 0)
-        Infile = stdin;
-    else if ((Infile = fopen(FileName, READTEXT)) == NULL)
-        return NOTOK;
-
-    if (fgets(lineBuff, 255, Infile) == NULL)
-    {
-        if (Infile != stdin)
-            fclose(Infile);
-        return NOTOK;
-    }
-
-    // Reset file pointer to beginning of file
-    fseek(Infile, 0, SEEK_SET);
-    if (strncmp(lineBuff, "LEDA.GRAPH", strlen("LEDA.GRAPH")) == 0)
-        RetVal = _ReadLEDAGraph(theGraph, Infile);
-    else if (strncmp(lineBuff, "N=", strlen("N=")) == 0)
-    {
-        RetVal = _ReadAdjList(theGraph, Infile, NULL);
-        if (RetVal == OK)
-            extraDataAllowed = true;
-    }
-    else if (isdigit(lineBuff[0]))
-    {
-        RetVal = _ReadAdjMatrix(theGraph, Infile, NULL);
-        if (RetVal == OK)
-            extraDataAllowed = true;
-    }
-    else
-    {
-        RetVal = _ReadGraphFromG6FilePointer(theGraph, Infile);
-        // Since G6ReadIterator closes Infile via sf_Free(), we don't want
-        // to try to fclose() again.
-        Infile = NULL;
-    }
-
-    // The possibility of "extra data" is not allowed for .g6 format:
-    // .g6 files may contain multiple graphs, which are not valid input
-    // for the extra data readers (i.e. fpReadPostProcess) Additionally,
-    // we don't want to add extra data if the graph is nonembeddable, as
-    // the FILE pointer isn't necessarily advanced past the graph
-    // encoding unless OK is returned.
-    if (extraDataAllowed)
-    {
-        void *extraData = NULL;
-        long filePos = ftell(Infile);
-        long fileSize;
-
-        fseek(Infile, 0, SEEK_END);
-        fileSize = ftell(Infile);
-        fseek(Infile, filePos, SEEK_SET);
-
-        if (filePos < fileSize)
-        {
-            extraData = malloc(fileSize - filePos + 1);
-            if (extraData == NULL || fread(extraData, fileSize - filePos, 1, Infile) != 1)
-            {
-                free(extraData);
-                extraData = NULL;
-                RetVal = NOTOK;
-            }
-            else
-                ((char *)extraData)[fileSize - filePos] = '\0';
-        }
-        /*
-                // Useful for quick debugging of IO extensibility
-                if (extraData == NULL)
-                    printf("extraData == NULL\n");
-                else
-                {
-                    char *extraDataString = (char *) extraData;
-                    extraDataString[fileSize - filePos] = '\0';
-                    printf("extraData = '%s'\n", extraDataString);
-                }
-        */
-
-        if (extraData != NULL)
-        {
-            RetVal = theGraph->functions.fpReadPostprocess(theGraph, extraData, fileSize - filePos);
-            free((void *)extraData);
-        }
-    }
-
-    if (strcmp(FileName, "stdin") != 0 && Infile != NULL)
-        fclose(Infile);
-
-    return RetVal;
-}
-
-/********************************************************************
- gp_ReadFromString()
- Populates theGraph using the information stored in inputStr (whose
- ownership is transferred from the caller, and therefore must be
- freed before returning).
-
- Supports adjacency list and adjacency matrix formats, not LEDA.
-
- Returns NOTOK for any error, or OK otherwise
- ********************************************************************/
-
-int gp_ReadFromString(graphP theGraph, char *inputStr)
-{
-    int RetVal;
-    bool extraDataAllowed = false;
-
-    strBufP inBuf;
-
-    if (theGraph == NULL || inputStr == NULL)
-    {
-        if (inputStr != NULL)
-            free(inputStr);
-        return NOTOK;
-    }
-
-    inBuf = sb_New(0);
-    if (inBuf == NULL)
-    {
-        if (inputStr != NULL)
-            free(inputStr);
-        return NOTOK;
-    }
-
-    if (sb_ConcatString(inBuf, inputStr) != OK)
-    {
-        sb_Free(&inBuf);
-
-        if (inputStr != NULL)
-            free(inputStr);
-
-        return NOTOK;
-    }
-
-    if (strncmp(inputStr, "LEDA.GRAPH", strlen("LEDA.GRAPH")) == 0)
-    {
-        sb_Free(&inBuf);
-        if (inputStr != NULL)
-            free(inputStr);
-        return NOTOK;
-    }
-    else if (strncmp(inputStr, "N=", strlen("N=")) == 0)
-    {
-        RetVal = _ReadAdjList(theGraph, NULL, inBuf);
-        if (RetVal == OK)
-            extraDataAllowed = true;
-    }
-    else if (isdigit(inputStr[0]))
-    {
-        RetVal = _ReadAdjMatrix(theGraph, NULL, inBuf);
-        if (RetVal == OK)
-            extraDataAllowed = true;
-    }
-    else
-    {
-        RetVal = _ReadGraphFromG6String(theGraph, inputStr);
-        // Since G6ReadIterator frees the inputStr via sf_Free(), we don't want
-        // to try to free again.
-        inputStr = NULL;
-    }
-
-    // The possibility of "extra data" is not allowed for .g6 format:
-    // .g6 files may contain multiple graphs, which are not valid input
-    // for the extra data readers (i.e. fpReadPostProcess) Additionally,
-    // we don't want to add extra data if the graph is nonembeddable, as
-    // the FILE pointer isn't necessarily advanced past the graph
-    // encoding unless OK is returned.
-    if (extraDataAllowed)
-    {
-        char *extraData = sb_GetReadString(inBuf);
-        int extraDataLen = extraData == NULL ? 0 : strlen(extraData);
-
-        if (extraDataLen > 0)
-            RetVal = theGraph->functions.fpReadPostprocess(theGraph, extraData, extraDataLen);
-    }
-
-    sb_Free(&inBuf);
-
-    if (inputStr != NULL)
-        free(inputStr);
-
-    return RetVal;
-}
-
-int _ReadPostprocess(graphP theGraph, void *extraData, long extraDataSize)
-{
-    return OK;
-}
-
-/********************************************************************
- _WriteAdjList()
- For each vertex, we write its number, a colon, the list of adjacent vertices,
- then a NIL.  The vertices occupy the first N positions of theGraph.  Each
- vertex is also has indicators of the first and last adjacency nodes (arcs)
- in its adjacency list.
-
- Returns: NOTOK for parameter errors; OK otherwise.
- ********************************************************************/
-
-int _WriteAdjList(graphP theGraph, FILE *Outfile, strBufP outBuf)
-{
-    int v, e;
-    int zeroBasedOffset;
-    char numberStr[128];
-
-    if (theGraph == NULL || (Outfile == NULL && outBuf == NULL))
-        return NOTOK;
-
-    zeroBasedOffset = (theGraph->internalFlags & FLAGS_ZEROBASEDIO) ? gp_GetFirstVertex(theGraph) : 0;
-
-    // Write the number of vertices of the graph to the file or string buffer
-    if (Outfile != NULL)
-        fprintf(Outfile, "N=%d\n", theGraph->N);
-    else
-    {
-        sprintf(numberStr, "N=%d\n", theGraph->N);
-        if (sb_ConcatString(outBuf, numberStr) != OK)
-            return NOTOK;
-    }
-
-    // Write the adjacency list of each vertex
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-    {
-        if (Outfile != NULL)
-            fprintf(Outfile, "%d:", v - zeroBasedOffset);
-        else
-        {
-            sprintf(numberStr, "%d:", v - zeroBasedOffset);
-            if (sb_ConcatString(outBuf, numberStr) != OK)
-                return NOTOK;
-        }
-
-        e = gp_GetLastArc(theGraph, v);
-        while (gp_IsArc(e))
-        {
-            if (gp_GetDirection(theGraph, e) != EDGEFLAG_DIRECTION_INONLY)
-            {
-                if (Outfile != NULL)
-                    fprintf(Outfile, " %d", gp_GetNeighbor(theGraph, e) - zeroBasedOffset);
-                else
-                {
-                    sprintf(numberStr, " %d", gp_GetNeighbor(theGraph, e) - zeroBasedOffset);
-                    if (sb_ConcatString(outBuf, numberStr) != OK)
-                        return NOTOK;
-                }
-            }
-
-            e = gp_GetPrevArc(theGraph, e);
-        }
-
-        // Write NIL at the end of the adjacency list (in zero-based I/O, NIL was -1)
-        if (Outfile != NULL)
-            fprintf(Outfile, " %d\n", (theGraph->internalFlags & FLAGS_ZEROBASEDIO) ? -1 : NIL);
-        else
-        {
-            sprintf(numberStr, " %d\n", (theGraph->internalFlags & FLAGS_ZEROBASEDIO) ? -1 : NIL);
-            if (sb_ConcatString(outBuf, numberStr) != OK)
-                return NOTOK;
-        }
-    }
-
-    return OK;
-}
-
-/********************************************************************
- _WriteAdjMatrix()
- Outputs upper triangular matrix representation capable of being
- read by _ReadAdjMatrix().
-
- theGraph and one of Outfile or theStrBuf must be non-NULL.
-
- Note: This routine does not support digraphs and will return an
-       error if a directed edge is found.
-
- returns OK for success, NOTOK for failure
- ********************************************************************/
-
-int _WriteAdjMatrix(graphP theGraph, FILE *Outfile, strBufP outBuf)
-{
-    int v, e, K;
-    char *Row = NULL;
-    char numberStr[128];
-
-    if (theGraph == NULL || (Outfile == NULL && outBuf == NULL))
-        return NOTOK;
-
-    // Write the number of vertices in the graph to the file or string buffer
-    if (Outfile != NULL)
-        fprintf(Outfile, "%d\n", theGraph->N);
-    else
-    {
-        sprintf(numberStr, "%d\n", theGraph->N);
-        if (sb_ConcatString(outBuf, numberStr) != OK)
-            return NOTOK;
-    }
-
-    // Allocate memory for storing a string expression of one row at a time
-    Row = (char *)malloc((theGraph->N + 2) * sizeof(char));
-    if (Row == NULL)
-        return NOTOK;
-
-    // Construct the upper triangular matrix representation one row at a time
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-    {
-        for (K = gp_GetFirstVertex(theGraph); K <= v; K++)
-            Row[K - gp_GetFirstVertex(theGraph)] = ' ';
-        for (K = v + 1; gp_VertexInRange(theGraph, K); K++)
-            Row[K - gp_GetFirstVertex(theGraph)] = '0';
-
-        e = gp_GetFirstArc(theGraph, v);
-        while (gp_IsArc(e))
-        {
-            if (gp_GetDirection(theGraph, e) == EDGEFLAG_DIRECTION_INONLY)
-            {
-                free(Row);
-                return NOTOK;
-            }
-
-            if (gp_GetNeighbor(theGraph, e) > v)
-                Row[gp_GetNeighbor(theGraph, e) - gp_GetFirstVertex(theGraph)] = '1';
-
-            e = gp_GetNextArc(theGraph, e);
-        }
-
-        Row[theGraph->N] = '\n';
-        Row[theGraph->N + 1] = '\0';
-
-        // Write the row to the file or string buffer
-        if (Outfile != NULL)
-            fprintf(Outfile, "%s", Row);
-        else if (sb_ConcatString(outBuf, Row) != OK)
-        {
-            free(Row);
-            return NOTOK;
-        }
-    }
-
-    free(Row);
-    return OK;
-}
-
-/********************************************************************
- ********************************************************************/
-
-char _GetEdgeTypeChar(graphP theGraph, int e)
-{
-    char type = 'U';
-
-    if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
-        type = 'C';
-    else if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_FORWARD)
-        type = 'F';
-    else if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_PARENT)
-        type = 'P';
-    else if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_BACK)
-        type = 'B';
-    else if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_RANDOMTREE)
-        type = 'T';
-
-    return type;
-}
-
-/********************************************************************
- ********************************************************************/
-
-char _GetVertexObstructionTypeChar(graphP theGraph, int v)
-{
-    char type = 'U';
-
-    if (gp_GetVertexObstructionType(theGraph, v) == VERTEX_OBSTRUCTIONTYPE_HIGH_RXW)
-        type = 'X';
-    else if (gp_GetVertexObstructionType(theGraph, v) == VERTEX_OBSTRUCTIONTYPE_LOW_RXW)
-        type = 'x';
-    if (gp_GetVertexObstructionType(theGraph, v) == VERTEX_OBSTRUCTIONTYPE_HIGH_RYW)
-        type = 'Y';
-    else if (gp_GetVertexObstructionType(theGraph, v) == VERTEX_OBSTRUCTIONTYPE_LOW_RYW)
-        type = 'y';
-
-    return type;
-}
-
-/********************************************************************
- _WriteDebugInfo()
- Writes adjacency list, but also includes the type value of each
- edge (e.g. is it DFS child  arc, forward arc or back arc?), and
- the L, A and DFSParent of each vertex.
- ********************************************************************/
-
-int _WriteDebugInfo(graphP theGraph, FILE *Outfile)
-{
-    int v, e, EsizeOccupied;
-
-    if (theGraph == NULL || Outfile == NULL)
-        return NOTOK;
-
-    /* Print parent copy vertices and their adjacency lists */
-
-    fprintf(Outfile, "DEBUG N=%d M=%d\n", theGraph->N, theGraph->M);
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-    {
-        fprintf(Outfile, "%d(P=%d,lA=%d,LowPt=%d,v=%d):",
-                v, gp_GetVertexParent(theGraph, v),
-                gp_GetVertexLeastAncestor(theGraph, v),
-                gp_GetVertexLowpoint(theGraph, v),
-                gp_GetVertexIndex(theGraph, v));
-
-        e = gp_GetFirstArc(theGraph, v);
-        while (gp_IsArc(e))
-        {
-            fprintf(Outfile, " %d(e=%d)", gp_GetNeighbor(theGraph, e), e);
-            e = gp_GetNextArc(theGraph, e);
-        }
-
-        fprintf(Outfile, " %d\n", NIL);
-    }
-
-    /* Print any root copy vertices and their adjacency lists */
-
-    for (v = gp_GetFirstVirtualVertex(theGraph); gp_VirtualVertexInRange(theGraph, v); v++)
-    {
-        if (!gp_VirtualVertexInUse(theGraph, v))
-            continue;
-
-        fprintf(Outfile, "%d(copy of=%d, DFS child=%d):",
-                v, gp_GetVertexIndex(theGraph, v),
-                gp_GetDFSChildFromRoot(theGraph, v));
-
-        e = gp_GetFirstArc(theGraph, v);
-        while (gp_IsArc(e))
-        {
-            fprintf(Outfile, " %d(e=%d)", gp_GetNeighbor(theGraph, e), e);
-            e = gp_GetNextArc(theGraph, e);
-        }
-
-        fprintf(Outfile, " %d\n", NIL);
-    }
-
-    /* Print information about vertices and root copy (virtual) vertices */
-    fprintf(Outfile, "\nVERTEX INFORMATION\n");
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-    {
-        fprintf(Outfile, "V[%3d] index=%3d, type=%c, first arc=%3d, last arc=%3d\n",
-                v,
-                gp_GetVertexIndex(theGraph, v),
-                (gp_IsVirtualVertex(theGraph, v) ? 'X' : _GetVertexObstructionTypeChar(theGraph, v)),
-                gp_GetFirstArc(theGraph, v),
-                gp_GetLastArc(theGraph, v));
-    }
-    for (v = gp_GetFirstVirtualVertex(theGraph); gp_VirtualVertexInRange(theGraph, v); v++)
-    {
-        if (gp_VirtualVertexNotInUse(theGraph, v))
-            continue;
-
-        fprintf(Outfile, "V[%3d] index=%3d, type=%c, first arc=%3d, last arc=%3d\n",
-                v,
-                gp_GetVertexIndex(theGraph, v),
-                (gp_IsVirtualVertex(theGraph, v) ? 'X' : _GetVertexObstructionTypeChar(theGraph, v)),
-                gp_GetFirstArc(theGraph, v),
-                gp_GetLastArc(theGraph, v));
-    }
-
-    /* Print information about edges */
-
-    fprintf(Outfile, "\nEDGE INFORMATION\n");
-    EsizeOccupied = gp_EdgeInUseIndexBound(theGraph);
-    for (e = gp_GetFirstEdge(theGraph); e < EsizeOccupied; e++)
-    {
-        if (gp_EdgeInUse(theGraph, e))
-        {
-            fprintf(Outfile, "E[%3d] neighbor=%3d, type=%c, next arc=%3d, prev arc=%3d\n",
-                    e,
-                    gp_GetNeighbor(theGraph, e),
-                    _GetEdgeTypeChar(theGraph, e),
-                    gp_GetNextArc(theGraph, e),
-                    gp_GetPrevArc(theGraph, e));
-        }
-    }
-
-    return OK;
-}
-
-/********************************************************************
- gp_Write()
- Writes theGraph into the file.
- Pass "stdout" or "stderr" to FileName to write to the corresponding stream
- Pass WRITE_G6, WRITE_ADJLIST, WRITE_ADJMATRIX, or WRITE_DEBUGINFO for the Mode
-
- NOTE: For digraphs, it is an error to use a mode other than WRITE_ADJLIST
-
- Returns NOTOK on error, OK on success.
- ********************************************************************/
-
-int gp_Write(graphP theGraph, char *FileName, int Mode)
-{
-    FILE *Outfile;
-    int RetVal;
-
-    if (theGraph == NULL || FileName == NULL)
-        return NOTOK;
-
-    if (strcmp(FileName, "nullwrite") == 0)
-        return OK;
-
-    if (strcmp(FileName, "stdout") == 0)
-        Outfile = stdout;
-    else if (strcmp(FileName, "stderr") == 0)
-        Outfile = stderr;
-    else if ((Outfile = fopen(FileName, WRITETEXT)) == NULL)
-        return NOTOK;
-
-    switch (Mode)
-    {
-    case WRITE_G6:
-        RetVal = _WriteGraphToG6FilePointer(theGraph, Outfile);
-        // Since G6WriteIterator closes Outfile, we don't want
-        // to try to fclose() again.
-        Outfile = NULL;
-        break;
-    case WRITE_ADJLIST:
-        RetVal = _WriteAdjList(theGraph, Outfile, NULL);
-        break;
-    case WRITE_ADJMATRIX:
-        RetVal = _WriteAdjMatrix(theGraph, Outfile, NULL);
-        break;
-    case WRITE_DEBUGINFO:
-        RetVal = _WriteDebugInfo(theGraph, Outfile);
-        break;
-    default:
-        RetVal = NOTOK;
-        break;
-    }
-
-    // The possibility of "extra data" is not allowed for .g6 format
-    if (RetVal == OK && Mode != WRITE_G6)
-    {
-        void *extraData = NULL;
-        long extraDataSize;
-
-        RetVal = theGraph->functions.fpWritePostprocess(theGraph, &extraData, &extraDataSize);
-
-        if (extraData != NULL)
-        {
-            if (!fwrite(extraData, extraDataSize, 1, Outfile))
-                RetVal = NOTOK;
-            free(extraData);
-        }
-    }
-
-    if (strcmp(FileName, "stdout") == 0 || strcmp(FileName, "stderr") == 0)
-    {
-        if (Outfile != NULL)
-            fflush(Outfile);
-    }
-
-    else if (Outfile != NULL && fclose(Outfile) != 0)
-        RetVal = NOTOK;
-
-    return RetVal;
-}
-
-/********************************************************************
- * gp_WriteToString()
- *
- * Writes the information of theGraph into a string that is returned
- * to the caller via the pointer pointer pOutputStr.
- * The string is owned by the caller and should be released with
- * free() when the caller doesn't need the string anymore.
- * The format of the content written into the returned string is based
- * on the Mode parameter: WRITE_G6, WRITE_ADJLIST, or WRITE_ADJMATRIX
- * (the WRITE_DEBUGINFO Mode is not supported at this time)
-
- NOTE: For digraphs, it is an error to use a mode other than WRITE_ADJLIST
-
- Returns NOTOK on error, or OK on success along with an allocated string
-         *pOutputStr that the caller must free()
- ********************************************************************/
-int gp_WriteToString(graphP theGraph, char **pOutputStr, int Mode)
-{
-    int RetVal;
-    strBufP outBuf = sb_New(0);
-
-    if (theGraph == NULL || pOutputStr == NULL || outBuf == NULL)
-    {
-        sb_Free(&outBuf);
-        return NOTOK;
-    }
-
-    switch (Mode)
-    {
-    case WRITE_G6:
-        RetVal = _WriteGraphToG6String(theGraph, pOutputStr);
-        sb_Free(&outBuf);
-        break;
-    case WRITE_ADJLIST:
-        RetVal = _WriteAdjList(theGraph, NULL, outBuf);
-        break;
-    case WRITE_ADJMATRIX:
-        RetVal = _WriteAdjMatrix(theGraph, NULL, outBuf);
-        break;
-    default:
-        RetVal = NOTOK;
-        break;
-    }
-
-    // The possibility of "extra data" is not allowed for .g6 format
-    if (RetVal == OK && Mode != WRITE_G6)
-    {
-        void *extraData = NULL;
-        long extraDataSize;
-
-        RetVal = theGraph->functions.fpWritePostprocess(theGraph, &extraData, &extraDataSize);
-
-        if (extraData != NULL)
-        {
-            for (int i = 0; i < extraDataSize; i++)
-                if (sb_ConcatChar(outBuf, ((char *)extraData)[i]) != OK)
-                {
-                    RetVal = NOTOK;
-                    break;
-                }
-            free(extraData);
-        }
-    }
-
-    if (outBuf != NULL)
-    {
-        *pOutputStr = RetVal == OK ? sb_TakeString(outBuf) : NULL;
-        if (*pOutputStr == NULL)
-            RetVal = NOTOK;
-    }
-    sb_Free(&outBuf);
-
-    return RetVal;
-}
-
-/********************************************************************
- _WritePostprocess()
-
- By default, no additional information is written.
- ********************************************************************/
-
-int _WritePostprocess(graphP theGraph, void **pExtraData, long *pExtraDataSize)
-{
-    return OK;
-}
-
-/********************************************************************
- _Log()
-
- When the project is compiled with LOGGING enabled, this method writes
- a string to the file PLANARITY.LOG in the current working directory.
- On first write, the file is created or cleared.
- Call this method with NULL to close the log file.
- ********************************************************************/
-
-void _Log(char *Str)
-{
-    static FILE *logfile = NULL;
-
-    if (logfile == NULL)
-    {
-        if ((logfile = fopen("PLANARITY.LOG", WRITETEXT)) == NULL)
-            return;
-    }
-
-    if (Str != NULL)
-    {
-        fprintf(logfile, "%s", Str);
-        fflush(logfile);
-    }
-    else
-        fclose(logfile);
-}
-
-void _LogLine(char *Str)
-{
-    _Log(Str);
-    _Log("\n");
-}
-
-static char LogStr[512];
-
-char *_MakeLogStr1(char *format, int one)
-{
-    sprintf(LogStr, format, one);
-    return LogStr;
-}
-
-char *_MakeLogStr2(char *format, int one, int two)
-{
-    sprintf(LogStr, format, one, two);
-    return LogStr;
-}
-
-char *_MakeLogStr3(char *format, int one, int two, int three)
-{
-    sprintf(LogStr, format, one, two, three);
-    return LogStr;
-}
-
-char *_MakeLogStr4(char *format, int one, int two, int three, int four)
-{
-    sprintf(LogStr, format, one, two, three, four);
-    return LogStr;
-}
-
-char *_MakeLogStr5(char *format, int one, int two, int three, int four, int five)
-{
-    sprintf(LogStr, format, one, two, three, four, five);
-    return LogStr;
-}
+/*
+Copyright (c) 1997-2022, John M. Boyer
+All rights reserved.
+See the LICENSE.TXT file for licensing information.
+*/
+
+#include <stdlib.h>
+#include <string.h>
+#include <ctype.h>
+
+#include "../graph.h"
+#include "g6-read-iterator.h"
+#include "g6-write-iterator.h"
+
+/* Private functions (exported to system) */
+
+int _ReadAdjMatrix(graphP theGraph, FILE *Infile, strBufP inBuf);
+int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf);
+int _WriteAdjList(graphP theGraph, FILE *Outfile, strBufP outBuf);
+int _WriteAdjMatrix(graphP theGraph, FILE *Outfile, strBufP outBuf);
+int _WriteDebugInfo(graphP theGraph, FILE *Outfile);
+
+/********************************************************************
+ _ReadAdjMatrix()
+ This function reads the undirected graph in upper triangular matrix format.
+ Though O(N^2) time is required, this routine is useful during
+ reliability testing due to the wealth of graph generating software
+ that uses this format for output.
+ Returns: OK, NOTOK on internal error, NONEMBEDDABLE if too many edges
+ ********************************************************************/
+
+int _ReadAdjMatrix(graphP theGraph, FILE *Infile, strBufP inBuf)
+{
+    int N = -1;
+    int v, w, Flag;
+
+    if (Infile == NULL && inBuf == NULL)
+        return NOTOK;
+
+    // Read the number of vertices from the first line of the file
+    if (Infile != NULL)
+        fscanf(Infile, " %d ", &N);
+    else
+    {
+        sb_ReadSkipWhitespace(inBuf);
+        sscanf(sb_GetReadString(inBuf), " %d ", &N);
+        sb_ReadSkipInteger(inBuf);
+        sb_ReadSkipWhitespace(inBuf);
+    }
+
+    // Initialize the graph based on the number of vertices
+    if (gp_InitGraph(theGraph, N) != OK)
+        return NOTOK;
+
+    // Read an upper-triangular matrix row for each vertex
+    // Note that for the last vertex, zero flags are read, per the upper triangular format
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+    {
+        gp_SetVertexIndex(theGraph, v, v);
+        for (w = v + 1; gp_VertexInRange(theGraph, w); w++)
+        {
+            // Read each of v's w-neighbor flags
+            if (Infile != NULL)
+            {
+                if (fscanf(Infile, " %1d", &Flag) != 1)
+                    return NOTOK;
+            }
+            else
+            {
+                sb_ReadSkipWhitespace(inBuf);
+                if (sscanf(sb_GetReadString(inBuf), " %1d", &Flag) != 1)
+                    return NOTOK;
+                sb_ReadSkipChar(inBuf);
+            }
+
+            // Add the edge (v, w) if the flag is raised
+            if (Flag)
+            {
+                if (gp_DynamicAddEdge(theGraph, v, 0, w, 0) != OK)
+                    return NOTOK;
+            }
+        }
+    }
+
+    // The whitespace after the last flag is not extra data
+    if (Infile != NULL)
+        fscanf(Infile, " ");
+    else
+        sb_ReadSkipWhitespace(inBuf);
+
+    return OK;
+}
+
+/********************************************************************
+ _ReadAdjList()
+ This function reads the graph in adjacency list format.
+
+ The file format is
+ On the first line    : N= number of vertices
+ On N subsequent lines: #: a b c ... -1
+ where # is a vertex number and a, b, c, ... are its neighbors.
+
+ NOTE:  The vertex number is for file documentation only.  It is an
+        error if the vertices are not in sorted order in the file.
+
+ NOTE:  If a loop edge is found, it is ignored without error.
+
+ NOTE:  This routine supports digraphs.  For a directed arc (v -> W),
+        an edge record is created in both vertices, v and W, and the
+        edge record in v's adjacency list is marked OUTONLY while the
+        edge record in W's list is marked INONLY.
+        This makes it easy to used edge directedness when appropriate
+        but also seamlessly process the corresponding undirected graph.
+
+ Returns: OK on success, NONEMBEDDABLE if success except too many edges
+          NOTOK on file content error (or internal error)
+ ********************************************************************/
+
+int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
+{
+    int N = -1;
+    int v, W, adjList, e, indexValue, ErrorCode;
+    int zeroBased = FALSE;
+
+    if (Infile == NULL && inBuf == NULL)
+        return NOTOK;
+
+    // Skip the "N=" and then read the N value for number of vertices
+    if (Infile != NULL)
+    {
+        fgetc(Infile);
+        fgetc(Infile);
+        fscanf(Infile, " %d ", &N);
+    }
+    else
+    {
+        sb_ReadSkipChar(inBuf);
+        sb_ReadSkipChar(inBuf);
+        sb_ReadSkipWhitespace(inBuf);
+        sscanf(sb_GetReadString(inBuf), " %d ", &N);
+        sb_ReadSkipInteger(inBuf);
+        sb_ReadSkipWhitespace(inBuf);
+    }
+
+    // Initialize theGraph based on the number of vertices in the input
+    if (gp_InitGraph(theGraph, N) != OK)
+        return NOTOK;
+
+    // Clear the visited members of the vertices so they can be used
+    // during the adjacency list read operation
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+        gp_SetVertexVisitedInfo(theGraph, v, NIL);
+
+    // Do the adjacency list read operation for each vertex in order
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+    {
+        // Read the vertex number
+        if (Infile != NULL)
+        {
+            if (fscanf(Infile, "%d", &indexValue) != 1)
+                return NOTOK;
+        }
+        else
+        {
+            if (sscanf(sb_GetReadString(inBuf), "%d", &indexValue) != 1)
+                return NOTOK;
+            sb_ReadSkipInteger(inBuf);
+        }
+
+        if (indexValue == 0 && v == gp_GetFirstVertex(theGraph))
+            zeroBased = TRUE;
+        indexValue += zeroBased ? gp_GetFirstVertex(theGraph) : 0;
+
+        gp_SetVertexIndex(theGraph, v, indexValue);
+
+        // The vertices are expected to be in numeric ascending order
+        if (gp_GetVertexIndex(theGraph, v) != v)
+            return NOTOK;
+
+        // Skip the colon after the vertex number
+        if (Infile != NULL)
+            fgetc(Infile);
+        else
+        {
+            if (*sb_GetReadString(inBuf) == '\0')
+                return NOTOK;
+            sb_ReadSkipChar(inBuf);
+        }
+
+        // If the vertex already has a non-empty adjacency list, then it is
+        // the result of adding edges during processing of preceding vertices.
+        // The list is removed from the current vertex v and saved for use
+        // during the read operation for v.  Adjacencies to preceding vertices
+        // are pulled from this list, if present, or added as directed edges
+        // if not.  Adjacencies to succeeding vertices are added as undirected
+        // edges, and will be corrected later if the succeeding vertex does not
+        // have the matching adjacency using the following mechanism.  After the
+        // read operation for a vertex v, any adjacency nodes left in the saved
+        // list are converted to directed edges from the preceding vertex to v.
+        adjList = gp_GetFirstArc(theGraph, v);
+        if (gp_IsArc(adjList))
+        {
+            // Store the adjacency node location in the visited member of each
+            // of the preceding vertices to which v is adjacent so that we can
+            // efficiently detect the adjacency during the read operation and
+            // efficiently find the adjacency node.
+            e = gp_GetFirstArc(theGraph, v);
+            while (gp_IsArc(e))
+            {
+                gp_SetVertexVisitedInfo(theGraph, gp_GetNeighbor(theGraph, e), e);
+                e = gp_GetNextArc(theGraph, e);
+            }
+
+            // Make the adjacency list circular, for later ease of processing
+            gp_SetPrevArc(theGraph, adjList, gp_GetLastArc(theGraph, v));
+            gp_SetNextArc(theGraph, gp_GetLastArc(theGraph, v), adjList);
+
+            // Remove the list from the vertex
+            gp_SetFirstArc(theGraph, v, NIL);
+            gp_SetLastArc(theGraph, v, NIL);
+        }
+
+        // Read the adjacency list.
+        while (1)
+        {
+            // Read the value indicating the next adjacent vertex (or the list end)
+            if (Infile != NULL)
+            {
+                if (fscanf(Infile, " %d ", &W) != 1)
+                    return NOTOK;
+            }
+            else
+            {
+                sb_ReadSkipWhitespace(inBuf);
+                if (sscanf(sb_GetReadString(inBuf), " %d ", &W) != 1)
+                    return NOTOK;
+                sb_ReadSkipInteger(inBuf);
+                sb_ReadSkipWhitespace(inBuf);
+            }
+            W += zeroBased ? gp_GetFirstVertex(theGraph) : 0;
+
+            // A value below the valid range indicates the adjacency list end
+            if (W < gp_GetFirstVertex(theGraph))
+                break;
+
+            // A value above the valid range is an error
+            if (W > gp_GetLastVertex(theGraph))
+                return NOTOK;
+
+            // Loop edges are not supported
+            else if (W == v)
+                return NOTOK;
+
+            // If the adjacency is to a succeeding, higher numbered vertex,
+            // then we'll add an undirected edge for now
+            else if (v < W)
+            {
+                if ((ErrorCode = gp_DynamicAddEdge(theGraph, v, 0, W, 0)) != OK)
+                    return ErrorCode;
+            }
+
+            // If the adjacency is to a preceding, lower numbered vertex, then
+            // we have to pull the adjacency node from the preexisting adjList,
+            // if it is there, and if not then we have to add a directed edge.
+            else
+            {
+                // If the adjacency node (arc) already exists, then we add it
+                // as the new first arc of the vertex and delete it from adjList
+                if (gp_IsArc(gp_GetVertexVisitedInfo(theGraph, W)))
+                {
+                    e = gp_GetVertexVisitedInfo(theGraph, W);
+
+                    // Remove the arc e from the adjList construct
+                    gp_SetVertexVisitedInfo(theGraph, W, NIL);
+                    if (adjList == e)
+                    {
+                        if ((adjList = gp_GetNextArc(theGraph, e)) == e)
+                            adjList = NIL;
+                    }
+                    gp_SetPrevArc(theGraph, gp_GetNextArc(theGraph, e), gp_GetPrevArc(theGraph, e));
+                    gp_SetNextArc(theGraph, gp_GetPrevArc(theGraph, e), gp_GetNextArc(theGraph, e));
+
+                    gp_AttachFirstArc(theGraph, v, e);
+                }
+
+                // If an adjacency node to the lower numbered vertex W does not
+                // already exist, then we make a new directed arc from the current
+                // vertex v to W.
+                else
+                {
+                    // It is added as the new first arc in both vertices
+                    if ((ErrorCode = gp_DynamicAddEdge(theGraph, v, 0, W, 0)) != OK)
+                        return ErrorCode;
+
+                    // Note that this call also sets OUTONLY on the twin arc
+                    gp_SetDirection(theGraph, gp_GetFirstArc(theGraph, W), EDGEFLAG_DIRECTION_INONLY);
+                }
+            }
+        }
+
+        // If there are still adjList entries after the read operation
+        // then those entries are not representative of full undirected edges.
+        // Rather, they represent incoming directed arcs from other vertices
+        // into vertex v. They need to be added back into v's adjacency list but
+        // marked as "INONLY", while the twin is marked "OUTONLY" (by the same function).
+        while (gp_IsArc(adjList))
+        {
+            e = adjList;
+
+            gp_SetVertexVisitedInfo(theGraph, gp_GetNeighbor(theGraph, e), NIL);
+
+            if ((adjList = gp_GetNextArc(theGraph, e)) == e)
+                adjList = NIL;
+
+            gp_SetPrevArc(theGraph, gp_GetNextArc(theGraph, e), gp_GetPrevArc(theGraph, e));
+            gp_SetNextArc(theGraph, gp_GetPrevArc(theGraph, e), gp_GetNextArc(theGraph, e));
+
+            gp_AttachFirstArc(theGraph, v, e);
+            gp_SetDirection(theGraph, e, EDGEFLAG_DIRECTION_INONLY);
+        }
+    }
+
+    if (zeroBased)
+        theGraph->internalFlags |= FLAGS_ZEROBASEDIO;
+
+    return OK;
+}
+
+/********************************************************************
+ _ReadLEDAGraph()
+ Reads the edge list from a LEDA file containing a simple undirected graph.
+ LEDA files use a one-based numbering system, which is converted to
+ zero-based numbers if the graph reports starting at zero as the first vertex.
+
+ Returns: OK on success, NONEMBEDDABLE if success except too many edges
+          NOTOK on file content error (or internal error)
+ ********************************************************************/
+
+int _ReadLEDAGraph(graphP theGraph, FILE *Infile)
+{
+    char Line[256];
+    int N = -1;
+    int M, m, u, v, ErrorCode;
+    int zeroBasedOffset = gp_GetFirstVertex(theGraph) == 0 ? 1 : 0;
+
+    /* Skip the lines that say LEDA.GRAPH and give the node and edge types */
+    /* Read the number of vertices N, initialize the graph, then skip N. */
+    if (fgets(Line, 255, Infile) == NULL || fgets(Line, 255, Infile) == NULL ||
+        fgets(Line, 255, Infile) == NULL || fgets(Line, 255, Infile) == NULL ||
+        sscanf(Line, " %d", &N) != 1)
+        return NOTOK;
+
+    if (gp_InitGraph(theGraph, N) != OK)
+        return NOTOK;
+
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+        if (fgets(Line, 255, Infile) == NULL)
+            return NOTOK;
+
+    /* Read the number of edges */
+    if (fgets(Line, 255, Infile) == NULL || sscanf(Line, " %d", &M) != 1)
+        return NOTOK;
+
+    /* Read and add each edge, omitting loops and parallel edges */
+    for (m = 0; m < M; m++)
+    {
+        if (fgets(Line, 255, Infile) == NULL || sscanf(Line, " %d %d", &u, &v) != 2)
+            return NOTOK;
+
+        if (u < gp_GetFirstVertex(theGraph) + zeroBasedOffset || u > gp_GetLastVertex(theGraph) + zeroBasedOffset ||
+            v < gp_GetFirstVertex(theGraph) + zeroBasedOffset || v > gp_GetLastVertex(theGraph) + zeroBasedOffset)
+            return NOTOK;
+
+        if (u != v && !gp_IsNeighbor(theGraph, u - zeroBasedOffset, v - zeroBasedOffset))
+        {
+            if ((ErrorCode = gp_DynamicAddEdge(theGraph, u - zeroBasedOffset, 0, v - zeroBasedOffset, 0)) != OK)
+                return ErrorCode;
+        }
+    }
+
+    if (zeroBasedOffset)
+        theGraph->internalFlags |= FLAGS_ZEROBASEDIO;
+
+    return OK;
+}
+
+/********************************************************************
+ gp_Read()
+ Opens the given file, determines whether it is in adjacency list or
+ matrix format based on whether the file start with N or just a number,
+ calls the appropriate read function, then closes the file and returns
+ the graph.
+
+ Digraphs and loop edges are not supported in the adjacency matrix format,
+ which is upper triangular.
+
+ In the adjacency list format, digraphs are supported.  Loop edges are
+ ignored without producing an error.
+
+ Pass "stdin" for the FileName to read from the stdin stream
+
+ Returns: OK, NOTOK on internal error, NONEMBEDDABLE if too many edges
+ ********************************************************************/
+
+int gp_Read(graphP theGraph, char *FileName)
+{
+    FILE *Infile;
+    bool extraDataAllowed = false;
+    char lineBuff[255];
+    int RetVal;
+
+    if (theGraph == NULL || FileName == NULL)
+        return NOTOK;
+
+    if (strcmp(FileName, "stdin") == 0)
+        Infile = stdin;
+    else if ((Infile = fopen(FileName, READTEXT)) == NULL)
+        return NOTOK;
+
+    if (fgets(lineBuff, 255, Infile) == NULL)
+    {
+        if (Infile != stdin)
+            fclose(Infile);
+        return NOTOK;
+    }
+
+    // Reset file pointer to beginning of file
+    fseek(Infile, 0, SEEK_SET);
+    if (strncmp(lineBuff, "LEDA.GRAPH", strlen("LEDA.GRAPH")) == 0)
+        RetVal = _ReadLEDAGraph(theGraph, Infile);
+    else if (strncmp(lineBuff, "N=", strlen("N=")) == 0)
+    {
+        RetVal = _ReadAdjList(theGraph, Infile, NULL);
+        if (RetVal == OK)
+            extraDataAllowed = true;
+    }
+    else if (isdigit(lineBuff[0]))
+    {
+        RetVal = _ReadAdjMatrix(theGraph, Infile, NULL);
+        if (RetVal == OK)
+            extraDataAllowed = true;
+    }
+    else
+    {
+        RetVal = _ReadGraphFromG6FilePointer(theGraph, Infile);
+        // Since G6ReadIterator closes Infile via sf_Free(), we don't want
+        // to try to fclose() again.
+        Infile = NULL;
+    }
+
+    // The possibility of "extra data" is not allowed for .g6 format:
+    // .g6 files may contain multiple graphs, which are not valid input
+    // for the extra data readers (i.e. fpReadPostProcess) Additionally,
+    // we don't want to add extra data if the graph is nonembeddable, as
+    // the FILE pointer isn't necessarily advanced past the graph
+    // encoding unless OK is returned.
+    if (extraDataAllowed)
+    {
+        void *extraData = NULL;
+        long filePos = ftell(Infile);
+        long fileSize;
+
+        fseek(Infile, 0, SEEK_END);
+        fileSize = ftell(Infile);
+        fseek(Infile, filePos, SEEK_SET);
+
+        if (filePos < fileSize)
+        {
+            extraData = malloc(fileSize - filePos + 1);
+            if (extraData == NULL || fread(extraData, fileSize - filePos, 1, Infile) != 1)
+            {
+                free(extraData);
+                extraData = NULL;
+                RetVal = NOTOK;
+            }
+            else
+                ((char *)extraData)[fileSize - filePos] = '\0';
+        }
+        /*
+                // Useful for quick debugging of IO extensibility
+                if (extraData == NULL)
+                    printf("extraData == NULL\n");
+                else
+                {
+                    char *extraDataString = (char *) extraData;
+                    extraDataString[fileSize - filePos] = '\0';
+                    printf("extraData = '%s'\n", extraDataString);
+                }
+        */
+
+        if (extraData != NULL)
+        {
+            RetVal = theGraph->functions.fpReadPostprocess(theGraph, extraData, fileSize - filePos);
+            free((void *)extraData);
+        }
+    }
+
+    if (strcmp(FileName, "stdin") != 0 && Infile != NULL)
+        fclose(Infile);
+
+    return RetVal;
+}
+
+/********************************************************************
+ gp_ReadFromString()
+ Populates theGraph using the information stored in inputStr (whose
+ ownership is transferred from the caller, and therefore must be
+ freed before returning).
+
+ Supports adjacency list and adjacency matrix formats, not LEDA.
+
+ Returns NOTOK for any error, or OK otherwise
+ ********************************************************************/
+
+int gp_ReadFromString(graphP theGraph, char *inputStr)
+{
+    int RetVal;
+    bool extraDataAllowed = false;
+
+    strBufP inBuf;
+
+    if (theGraph == NULL || inputStr == NULL)
+    {
+        if (inputStr != NULL)
+            free(inputStr);
+        return NOTOK;
+    }
+
+    inBuf = sb_New(0);
+    if (inBuf == NULL)
+    {
+        if (inputStr != NULL)
+            free(inputStr);
+        return NOTOK;
+    }
+
+    if (sb_ConcatString(inBuf, inputStr) != OK)
+    {
+        sb_Free(&inBuf);
+
+        if (inputStr != NULL)
+            free(inputStr);
+
+        return NOTOK;
+    }
+
+    if (strncmp(inputStr, "LEDA.GRAPH", strlen("LEDA.GRAPH")) == 0)
+    {
+        sb_Free(&inBuf);
+        if (inputStr != NULL)
+            free(inputStr);
+        return NOTOK;
+    }
+    else if (strncmp(inputStr, "N=", strlen("N=")) == 0)
+    {
+        RetVal = _ReadAdjList(theGraph, NULL, inBuf);
+        if (RetVal == OK)
+            extraDataAllowed = true;
+    }
+    else if (isdigit(inputStr[0]))
+    {
+        RetVal = _ReadAdjMatrix(theGraph, NULL, inBuf);
+        if (RetVal == OK)
+            extraDataAllowed = true;
+    }
+    else
+    {
+        RetVal = _ReadGraphFromG6String(theGraph, inputStr);
+        // Since G6ReadIterator frees the inputStr via sf_Free(), we don't want
+        // to try to free again.
+        inputStr = NULL;
+    }
+
+    // The possibility of "extra data" is not allowed for .g6 format:
+    // .g6 files may contain multiple graphs, which are not valid input
+    // for the extra data readers (i.e. fpReadPostProcess) Additionally,
+    // we don't want to add extra data if the graph is nonembeddable, as
+    // the FILE pointer isn't necessarily advanced past the graph
+    // encoding unless OK is returned.
+    if (extraDataAllowed)
+    {
+        char *extraData = sb_GetReadString(inBuf);
+        int extraDataLen = extraData == NULL ? 0 : strlen(extraData);
+
+        if (extraDataLen > 0)
+            RetVal = theGraph->functions.fpReadPostprocess(theGraph, extraData, extraDataLen);
+    }
+
+    sb_Free(&inBuf);
+
+    if (inputStr != NULL)
+        free(inputStr);
+
+    return RetVal;
+}
+
+int _ReadPostprocess(graphP theGraph, void *extraData, long extraDataSize)
+{
+    return OK;
+}
+
+/********************************************************************
+ _WriteAdjList()
+ For each vertex, we write its number, a colon, the list of adjacent vertices,
+ then a NIL.  The vertices occupy the first N positions of theGraph.  Each
+ vertex is also has indicators of the first and last adjacency nodes (arcs)
+ in its adjacency list.
+
+ Returns: NOTOK for parameter errors; OK otherwise.
+ ********************************************************************/
+
+int _WriteAdjList(graphP theGraph, FILE *Outfile, strBufP outBuf)
+{
+    int v, e;
+    int zeroBasedOffset;
+    char numberStr[128];
+
+    if (theGraph == NULL || (Outfile == NULL && outBuf == NULL))
+        return NOTOK;
+
+    zeroBasedOffset = (theGraph->internalFlags & FLAGS_ZEROBASEDIO) ? gp_GetFirstVertex(theGraph) : 0;
+
+    // Write the number of vertices of the graph to the file or string buffer
+    if (Outfile != NULL)
+        fprintf(Outfile, "N=%d\n", theGraph->N);
+    else
+    {
+        sprintf(numberStr, "N=%d\n", theGraph->N);
+        if (sb_ConcatString(outBuf, numberStr) != OK)
+            return NOTOK;
+    }
+
+    // Write the adjacency list of each vertex
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+    {
+        if (Outfile != NULL)
+            fprintf(Outfile, "%d:", v - zeroBasedOffset);
+        else
+        {
+            sprintf(numberStr, "%d:", v - zeroBasedOffset);
+            if (sb_ConcatString(outBuf, numberStr) != OK)
+                return NOTOK;
+        }
+
+        e = gp_GetLastArc(theGraph, v);
+        while (gp_IsArc(e))
+        {
+            if (gp_GetDirection(theGraph, e) != EDGEFLAG_DIRECTION_INONLY)
+            {
+                if (Outfile != NULL)
+                    fprintf(Outfile, " %d", gp_GetNeighbor(theGraph, e) - zeroBasedOffset);
+                else
+                {
+                    sprintf(numberStr, " %d", gp_GetNeighbor(theGraph, e) - zeroBasedOffset);
+                    if (sb_ConcatString(outBuf, numberStr) != OK)
+                        return NOTOK;
+                }
+            }
+
+            e = gp_GetPrevArc(theGraph, e);
+        }
+
+        // Write NIL at the end of the adjacency list (in zero-based I/O, NIL was -1)
+        if (Outfile != NULL)
+            fprintf(Outfile, " %d\n", (theGraph->internalFlags & FLAGS_ZEROBASEDIO) ? -1 : NIL);
+        else
+        {
+            sprintf(numberStr, " %d\n", (theGraph->internalFlags & FLAGS_ZEROBASEDIO) ? -1 : NIL);
+            if (sb_ConcatString(outBuf, numberStr) != OK)
+                return NOTOK;
+        }
+    }
+
+    return OK;
+}
+
+/********************************************************************
+ _WriteAdjMatrix()
+ Outputs upper triangular matrix representation capable of being
+ read by _ReadAdjMatrix().
+
+ theGraph and one of Outfile or theStrBuf must be non-NULL.
+
+ Note: This routine does not support digraphs and will return an
+       error if a directed edge is found.
+
+ returns OK for success, NOTOK for failure
+ ********************************************************************/
+
+int _WriteAdjMatrix(graphP theGraph, FILE *Outfile, strBufP outBuf)
+{
+    int v, e, K;
+    char *Row = NULL;
+    char numberStr[128];
+
+    if (theGraph == NULL || (Outfile == NULL && outBuf == NULL))
+        return NOTOK;
+
+    // Write the number of vertices in the graph to the file or string buffer
+    if (Outfile != NULL)
+        fprintf(Outfile, "%d\n", theGraph->N);
+    else
+    {
+        sprintf(numberStr, "%d\n", theGraph->N);
+        if (sb_ConcatString(outBuf, numberStr) != OK)
+            return NOTOK;
+    }
+
+    // Allocate memory for storing a string expression of one row at a time
+    Row = (char *)malloc((theGraph->N + 2) * sizeof(char));
+    if (Row == NULL)
+        return NOTOK;
+
+    // Construct the upper triangular matrix representation one row at a time
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+    {
+        for (K = gp_GetFirstVertex(theGraph); K <= v; K++)
+            Row[K - gp_GetFirstVertex(theGraph)] = ' ';
+        for (K = v + 1; gp_VertexInRange(theGraph, K); K++)
+            Row[K - gp_GetFirstVertex(theGraph)] = '0';
+
+        e = gp_GetFirstArc(theGraph, v);
+        while (gp_IsArc(e))
+        {
+            if (gp_GetDirection(theGraph, e) == EDGEFLAG_DIRECTION_INONLY)
+            {
+                free(Row);
+                return NOTOK;
+            }
+
+            if (gp_GetNeighbor(theGraph, e) > v)
+                Row[gp_GetNeighbor(theGraph, e) - gp_GetFirstVertex(theGraph)] = '1';
+
+            e = gp_GetNextArc(theGraph, e);
+        }
+
+        Row[theGraph->N] = '\n';
+        Row[theGraph->N + 1] = '\0';
+
+        // Write the row to the file or string buffer
+        if (Outfile != NULL)
+            fprintf(Outfile, "%s", Row);
+        else if (sb_ConcatString(outBuf, Row) != OK)
+        {
+            free(Row);
+            return NOTOK;
+        }
+    }
+
+    free(Row);
+    return OK;
+}
+
+/********************************************************************
+ ********************************************************************/
+
+char _GetEdgeTypeChar(graphP theGraph, int e)
+{
+    char type = 'U';
+
+    if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_CHILD)
+        type = 'C';
+    else if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_FORWARD)
+        type = 'F';
+    else if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_PARENT)
+        type = 'P';
+    else if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_BACK)
+        type = 'B';
+    else if (gp_GetEdgeType(theGraph, e) == EDGE_TYPE_RANDOMTREE)
+        type = 'T';
+
+    return type;
+}
+
+/********************************************************************
+ ********************************************************************/
+
+char _GetVertexObstructionTypeChar(graphP theGraph, int v)
+{
+    char type = 'U';
+
+    if (gp_GetVertexObstructionType(theGraph, v) == VERTEX_OBSTRUCTIONTYPE_HIGH_RXW)
+        type = 'X';
+    else if (gp_GetVertexObstructionType(theGraph, v) == VERTEX_OBSTRUCTIONTYPE_LOW_RXW)
+        type = 'x';
+    if (gp_GetVertexObstructionType(theGraph, v) == VERTEX_OBSTRUCTIONTYPE_HIGH_RYW)
+        type = 'Y';
+    else if (gp_GetVertexObstructionType(theGraph, v) == VERTEX_OBSTRUCTIONTYPE_LOW_RYW)
+        type = 'y';
+
+    return type;
+}
+
+/********************************************************************
+ _WriteDebugInfo()
+ Writes adjacency list, but also includes the type value of each
+ edge (e.g. is it DFS child  arc, forward arc or back arc?), and
+ the L, A and DFSParent of each vertex.
+ ********************************************************************/
+
+int _WriteDebugInfo(graphP theGraph, FILE *Outfile)
+{
+    int v, e, EsizeOccupied;
+
+    if (theGraph == NULL || Outfile == NULL)
+        return NOTOK;
+
+    /* Print parent copy vertices and their adjacency lists */
+
+    fprintf(Outfile, "DEBUG N=%d M=%d\n", theGraph->N, theGraph->M);
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+    {
+        fprintf(Outfile, "%d(P=%d,lA=%d,LowPt=%d,v=%d):",
+                v, gp_GetVertexParent(theGraph, v),
+                gp_GetVertexLeastAncestor(theGraph, v),
+                gp_GetVertexLowpoint(theGraph, v),
+                gp_GetVertexIndex(theGraph, v));
+
+        e = gp_GetFirstArc(theGraph, v);
+        while (gp_IsArc(e))
+        {
+            fprintf(Outfile, " %d(e=%d)", gp_GetNeighbor(theGraph, e), e);
+            e = gp_GetNextArc(theGraph, e);
+        }
+
+        fprintf(Outfile, " %d\n", NIL);
+    }
+
+    /* Print any root copy vertices and their adjacency lists */
+
+    for (v = gp_GetFirstVirtualVertex(theGraph); gp_VirtualVertexInRange(theGraph, v); v++)
+    {
+        if (!gp_VirtualVertexInUse(theGraph, v))
+            continue;
+
+        fprintf(Outfile, "%d(copy of=%d, DFS child=%d):",
+                v, gp_GetVertexIndex(theGraph, v),
+                gp_GetDFSChildFromRoot(theGraph, v));
+
+        e = gp_GetFirstArc(theGraph, v);
+        while (gp_IsArc(e))
+        {
+            fprintf(Outfile, " %d(e=%d)", gp_GetNeighbor(theGraph, e), e);
+            e = gp_GetNextArc(theGraph, e);
+        }
+
+        fprintf(Outfile, " %d\n", NIL);
+    }
+
+    /* Print information about vertices and root copy (virtual) vertices */
+    fprintf(Outfile, "\nVERTEX INFORMATION\n");
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+    {
+        fprintf(Outfile, "V[%3d] index=%3d, type=%c, first arc=%3d, last arc=%3d\n",
+                v,
+                gp_GetVertexIndex(theGraph, v),
+                (gp_IsVirtualVertex(theGraph, v) ? 'X' : _GetVertexObstructionTypeChar(theGraph, v)),
+                gp_GetFirstArc(theGraph, v),
+                gp_GetLastArc(theGraph, v));
+    }
+    for (v = gp_GetFirstVirtualVertex(theGraph); gp_VirtualVertexInRange(theGraph, v); v++)
+    {
+        if (gp_VirtualVertexNotInUse(theGraph, v))
+            continue;
+
+        fprintf(Outfile, "V[%3d] index=%3d, type=%c, first arc=%3d, last arc=%3d\n",
+                v,
+                gp_GetVertexIndex(theGraph, v),
+                (gp_IsVirtualVertex(theGraph, v) ? 'X' : _GetVertexObstructionTypeChar(theGraph, v)),
+                gp_GetFirstArc(theGraph, v),
+                gp_GetLastArc(theGraph, v));
+    }
+
+    /* Print information about edges */
+
+    fprintf(Outfile, "\nEDGE INFORMATION\n");
+    EsizeOccupied = gp_EdgeInUseIndexBound(theGraph);
+    for (e = gp_GetFirstEdge(theGraph); e < EsizeOccupied; e++)
+    {
+        if (gp_EdgeInUse(theGraph, e))
+        {
+            fprintf(Outfile, "E[%3d] neighbor=%3d, type=%c, next arc=%3d, prev arc=%3d\n",
+                    e,
+                    gp_GetNeighbor(theGraph, e),
+                    _GetEdgeTypeChar(theGraph, e),
+                    gp_GetNextArc(theGraph, e),
+                    gp_GetPrevArc(theGraph, e));
+        }
+    }
+
+    return OK;
+}
+
+/********************************************************************
+ gp_Write()
+ Writes theGraph into the file.
+ Pass "stdout" or "stderr" to FileName to write to the corresponding stream
+ Pass WRITE_G6, WRITE_ADJLIST, WRITE_ADJMATRIX, or WRITE_DEBUGINFO for the Mode
+
+ NOTE: For digraphs, it is an error to use a mode other than WRITE_ADJLIST
+
+ Returns NOTOK on error, OK on success.
+ ********************************************************************/
+
+int gp_Write(graphP theGraph, char *FileName, int Mode)
+{
+    FILE *Outfile;
+    int RetVal;
+
+    if (theGraph == NULL || FileName == NULL)
+        return NOTOK;
+
+    if (strcmp(FileName, "nullwrite") == 0)
+        return OK;
+
+    if (strcmp(FileName, "stdout") == 0)
+        Outfile = stdout;
+    else if (strcmp(FileName, "stderr") == 0)
+        Outfile = stderr;
+    else if ((Outfile = fopen(FileName, WRITETEXT)) == NULL)
+        return NOTOK;
+
+    switch (Mode)
+    {
+    case WRITE_G6:
+        RetVal = _WriteGraphToG6FilePointer(theGraph, Outfile);
+        // Since G6WriteIterator closes Outfile, we don't want
+        // to try to fclose() again.
+        Outfile = NULL;
+        break;
+    case WRITE_ADJLIST:
+        RetVal = _WriteAdjList(theGraph, Outfile, NULL);
+        break;
+    case WRITE_ADJMATRIX:
+        RetVal = _WriteAdjMatrix(theGraph, Outfile, NULL);
+        break;
+    case WRITE_DEBUGINFO:
+        RetVal = _WriteDebugInfo(theGraph, Outfile);
+        break;
+    default:
+        RetVal = NOTOK;
+        break;
+    }
+
+    // The possibility of "extra data" is not allowed for .g6 format
+    if (RetVal == OK && Mode != WRITE_G6)
+    {
+        void *extraData = NULL;
+        long extraDataSize;
+
+        RetVal = theGraph->functions.fpWritePostprocess(theGraph, &extraData, &extraDataSize);
+
+        if (extraData != NULL)
+        {
+            if (!fwrite(extraData, extraDataSize, 1, Outfile))
+                RetVal = NOTOK;
+            free(extraData);
+        }
+    }
+
+    if (strcmp(FileName, "stdout") == 0 || strcmp(FileName, "stderr") == 0)
+    {
+        if (Outfile != NULL)
+            fflush(Outfile);
+    }
+
+    else if (Outfile != NULL && fclose(Outfile) != 0)
+        RetVal = NOTOK;
+
+    return RetVal;
+}
+
+/********************************************************************
+ * gp_WriteToString()
+ *
+ * Writes the information of theGraph into a string that is returned
+ * to the caller via the pointer pointer pOutputStr.
+ * The string is owned by the caller and should be released with
+ * free() when the caller doesn't need the string anymore.
+ * The format of the content written into the returned string is based
+ * on the Mode parameter: WRITE_G6, WRITE_ADJLIST, or WRITE_ADJMATRIX
+ * (the WRITE_DEBUGINFO Mode is not supported at this time)
+
+ NOTE: For digraphs, it is an error to use a mode other than WRITE_ADJLIST
+
+ Returns NOTOK on error, or OK on success along with an allocated string
+         *pOutputStr that the caller must free()
+ ********************************************************************/
+int gp_WriteToString(graphP theGraph, char **pOutputStr, int Mode)
+{
+    int RetVal;
+    strBufP outBuf = sb_New(0);
+
+    if (theGraph == NULL || pOutputStr == NULL || outBuf == NULL)
+    {
+        sb_Free(&outBuf);
+        return NOTOK;
+    }
+
+    switch (Mode)
+    {
+    case WRITE_G6:
+        RetVal = _WriteGraphToG6String(theGraph, pOutputStr);
+        sb_Free(&outBuf);
+        break;
+    case WRITE_ADJLIST:
+        RetVal = _WriteAdjList(theGraph, NULL, outBuf);
+        break;
+    case WRITE_ADJMATRIX:
+        RetVal = _WriteAdjMatrix(theGraph, NULL, outBuf);
+        break;
+    default:
+        RetVal = NOTOK;
+        break;
+    }
+
+    // The possibility of "extra data" is not allowed for .g6 format
+    if (RetVal == OK && Mode != WRITE_G6)
+    {
+        void *extraData = NULL;
+        long extraDataSize;
+
+        RetVal = theGraph->functions.fpWritePostprocess(theGraph, &extraData, &extraDataSize);
+
+        if (extraData != NULL)
+        {
+            for (int i = 0; i < extraDataSize; i++)
+                if (sb_ConcatChar(outBuf, ((char *)extraData)[i]) != OK)
+                {
+                    RetVal = NOTOK;
+                    break;
+                }
+            free(extraData);
+        }
+    }
+
+    if (outBuf != NULL)
+    {
+        *pOutputStr = RetVal == OK ? sb_TakeString(outBuf) : NULL;
+        if (*pOutputStr == NULL)
+            RetVal = NOTOK;
+    }
+    sb_Free(&outBuf);
+
+    return RetVal;
+}
+
+/********************************************************************
+ _WritePostprocess()
+
+ By default, no additional information is written.
+ ********************************************************************/
+
+int _WritePostprocess(graphP theGraph, void **pExtraData, long *pExtraDataSize)
+{
+    return OK;
+}
+
+/********************************************************************
+ _Log()
+
+ When the project is compiled with LOGGING enabled, this method writes
+ a string to the file PLANARITY.LOG in the current working directory.
+ On first write, the file is created or cleared.
+ Call this method with NULL to close the log file.
+ ********************************************************************/
+
+void _Log(char *Str)
+{
+    static FILE *logfile = NULL;
+
+    if (logfile == NULL)
+    {
+        if ((logfile = fopen("PLANARITY.LOG", WRITETEXT)) == NULL)
+            return;
+    }
+
+    if (Str != NULL)
+    {
+        fprintf(logfile, "%s", Str);
+        fflush(logfile);
+    }
+    else
+        fclose(logfile);
+}
+
+void _LogLine(char *Str)
+{
+    _Log(Str);
+    _Log("\n");
+}
+
+static char LogStr[512];
+
+char *_MakeLogStr1(char *format, int one)
+{
+    sprintf(LogStr, format, one);
+    return LogStr;
+}
+
+char *_MakeLogStr2(char *format, int one, int two)
+{
+    sprintf(LogStr, format, one, two);
+    return LogStr;
+}
+
+char *_MakeLogStr3(char *format, int one, int two, int three)
+{
+    sprintf(LogStr, format, one, two, three);
+    return LogStr;
+}
+
+char *_MakeLogStr4(char *format, int one, int two, int three, int four)
+{
+    sprintf(LogStr, format, one, two, three, four);
+    return LogStr;
+}
+
+char *_MakeLogStr5(char *format, int one, int two, int three, int four, int five)
+{
+    sprintf(LogStr, format, one, two, three, four, five);
+    return LogStr;
+}
diff --git a/c/graphLib/io/strbuf.c b/c/graphLib/io/strbuf.c
index 7807c51..aa4977d 100644
--- a/c/graphLib/io/strbuf.c
+++ b/c/graphLib/io/strbuf.c
@@ -1,252 +1,252 @@
-/*
-Copyright (c) 1997-2022, John M. Boyer
-All rights reserved.
-See the LICENSE.TXT file for licensing information.
-*/
-
-#include "../lowLevelUtils/appconst.h"
-#include "strbuf.h"
-#include <stdlib.h>
-#include <ctype.h>
-
-/********************************************************************
- sb_New()
- Allocates a string buffer with space for capacity characters, plus one
- for a null terminator
-
- Returns the allocated string buffer, or NULL on error.
- ********************************************************************/
-strBufP sb_New(int capacity)
-{
-    strBufP theStrBuf;
-
-    if (capacity < 0)
-        return NULL;
-
-    theStrBuf = (strBufP)malloc(sizeof(strBuf));
-
-    if (theStrBuf != NULL)
-    {
-        theStrBuf->buf = (char *)malloc((capacity + 1) * sizeof(char));
-        if (theStrBuf->buf == NULL)
-        {
-            free(theStrBuf);
-            theStrBuf = NULL;
-        }
-    }
-
-    if (theStrBuf != NULL)
-    {
-        theStrBuf->capacity = capacity;
-        sb_ClearBuf(theStrBuf);
-    }
-
-    return theStrBuf;
-}
-
-/********************************************************************
- sb_Free()
- Receives a pointer-pointer to a string buffer.
- Frees the memory of the string buffer structure and the string buffer
- it contains. Using the pointer-pointer, sets the pointer to NULL.
- ********************************************************************/
-void sb_Free(strBufP *pStrBuf)
-{
-    if (pStrBuf != NULL && *pStrBuf != NULL)
-    {
-        (*pStrBuf)->capacity = (*pStrBuf)->size = (*pStrBuf)->readPos = 0;
-
-        if ((*pStrBuf)->buf != NULL)
-            free((*pStrBuf)->buf);
-        (*pStrBuf)->buf = NULL;
-
-        free(*pStrBuf);
-        *pStrBuf = NULL;
-    }
-}
-
-/********************************************************************
- sb_CleareBuf()
- The string buffer is changed, if not NULL, to hold an empty string,
- including setting the size and position to 0. The capacity is not
- changed.
- ********************************************************************/
-void sb_ClearBuf(strBufP theStrBuf)
-{
-    if (theStrBuf != NULL)
-    {
-        if (theStrBuf->buf != NULL)
-            theStrBuf->buf[0] = '\0';
-        theStrBuf->size = theStrBuf->readPos = 0;
-    }
-}
-
-/********************************************************************
- sb_Copy()
- Receives strBuf pointers for a destination and source.
- Ensures that the destination has the capacity of the source.
- Copies the source string content into the destination, and sets the
- size correctly.
- Returns OK for success, NOTOK on param or memory allocation error.
- ********************************************************************/
-int sb_Copy(strBufP strBufDst, strBufP strBufSrc)
-{
-    char *tempBuf;
-    strBufP newStrBuf = sb_Duplicate(strBufSrc);
-
-    if (strBufDst == NULL || strBufSrc == NULL || newStrBuf == NULL)
-    {
-        sb_Free(&newStrBuf);
-        return NOTOK;
-    }
-
-    tempBuf = strBufDst->buf;
-    strBufDst->buf = newStrBuf->buf;
-    newStrBuf->buf = tempBuf;
-
-    sb_Free(&newStrBuf);
-
-    strBufDst->size = strBufSrc->size;
-    strBufDst->capacity = strBufSrc->capacity;
-    strBufDst->readPos = 0;
-
-    return OK;
-}
-
-/********************************************************************
- sb_Duplicate()
- Receives a strBuf pointer. Allocates a new strBuf structure with the
- same capacity, and initially clears it. If the received strBuf has
- a non-empty string, then it is copied into the duplicate, and
- the duplicates size is set correctly.
- Returns the duplicate, or NULL on memory allocation error.
- ********************************************************************/
-strBufP sb_Duplicate(strBufP theStrBuf)
-{
-    strBufP newStrBuf = theStrBuf == NULL ? NULL : sb_New(theStrBuf->capacity);
-
-    if (newStrBuf == NULL)
-        return NULL;
-
-    if (theStrBuf->size > 0)
-    {
-        strcpy(newStrBuf->buf, theStrBuf->buf);
-        newStrBuf->size = theStrBuf->size;
-    }
-
-    return newStrBuf;
-}
-
-/********************************************************************
- sb_ReadSkipWhitespace()
- Advances the read position managed by the string buffer by skipping
- any number of whitespace characters, if present.
- ********************************************************************/
-
-void sb_ReadSkipWhitespace(strBufP theStrBuf)
-{
-    if (theStrBuf != NULL && theStrBuf->buf != NULL)
-    {
-        while (isspace(theStrBuf->buf[theStrBuf->readPos]))
-            theStrBuf->readPos++;
-    }
-}
-
-/********************************************************************
- sb_ReadSkipInteger()
- Advances the read position managed by the string buffer by skipping
- an initial negative sign, if present, then skipping any number of
- numeric digits, if present.
- ********************************************************************/
-void sb_ReadSkipInteger(strBufP theStrBuf)
-{
-    if (theStrBuf != NULL && theStrBuf->buf != NULL)
-    {
-        if (theStrBuf->buf[theStrBuf->readPos] == '-')
-            theStrBuf->readPos++;
-
-        while (isdigit(theStrBuf->buf[theStrBuf->readPos]))
-            theStrBuf->readPos++;
-    }
-}
-
-/********************************************************************
- sb_ConcatString()
- Appends the content of string s to the end of the content already
- in the string buffer. If the append would exceed the capacity of
- the buffer, then the buffer capacity is first increased. It is
- increased to one greater than the sum of the current capacity and the
- new string size or double the capacity (to ensure the memory space is
- big enough for both strings and linear time performance over many
- small concatenations).
- Returns OK on success, NOTOK on error
- ********************************************************************/
-int sb_ConcatString(strBufP theStrBuf, char *s)
-{
-    int slen = s == NULL ? 0 : strlen(s);
-
-    if (slen == 0)
-        return OK;
-
-    if (theStrBuf == NULL || theStrBuf->buf == NULL)
-        return NOTOK;
-
-    if (theStrBuf->size + slen > theStrBuf->capacity)
-    {
-        int newLen = theStrBuf->size + slen > 2 * theStrBuf->capacity ? theStrBuf->size + slen : 2 * theStrBuf->capacity;
-        char *newBuf = (char *)malloc((newLen + 1) * sizeof(char));
-
-        if (newBuf == NULL)
-            return NOTOK;
-
-        strcpy(newBuf, theStrBuf->buf);
-        free(theStrBuf->buf);
-        theStrBuf->buf = newBuf;
-        theStrBuf->capacity = newLen;
-    }
-
-    strcpy(theStrBuf->buf + theStrBuf->size, s);
-    theStrBuf->size += slen;
-
-    return OK;
-}
-
-/********************************************************************
- sb_ConcatChar()
- Converts ch into a one-character string containing ch, then invokes
- sb_ConcatStr().
- Returns Same as sb_ConcatStr()
- ********************************************************************/
-int sb_ConcatChar(strBufP theStrBuf, char ch)
-{
-    char s[2];
-    s[0] = ch;
-    s[1] = '\0';
-    return sb_ConcatString(theStrBuf, s);
-}
-
-/********************************************************************
- sb_TakeString()
- Extracts the buffer string from the received string buffer and
- returns it. The string buffer is changed to contain a zero length
- string, so that the buffer can be reused or freed with sb_Free().
- Returns NULL on error or a string to be freed by the caller on success.
- ********************************************************************/
-char *sb_TakeString(strBufP theStrBuf)
-{
-    char *theBuf = NULL;
-
-    if (theStrBuf == NULL)
-        return NULL;
-
-    char *newBuf = (char *)malloc(sizeof(char));
-    if (newBuf == NULL)
-        return NULL;
-
-    theBuf = theStrBuf->buf;
-    theStrBuf->buf = newBuf;
-    theStrBuf->buf[0] = '\0';
-    theStrBuf->size = theStrBuf->capacity = theStrBuf->readPos = 0;
-
-    return theBuf;
-}
+/*
+Copyright (c) 1997-2022, John M. Boyer
+All rights reserved.
+See the LICENSE.TXT file for licensing information.
+*/
+
+#include "../lowLevelUtils/appconst.h"
+#include "strbuf.h"
+#include <stdlib.h>
+#include <ctype.h>
+
+/********************************************************************
+ sb_New()
+ Allocates a string buffer with space for capacity characters, plus one
+ for a null terminator
+
+ Returns the allocated string buffer, or NULL on error.
+ ********************************************************************/
+strBufP sb_New(int capacity)
+{
+    strBufP theStrBuf;
+
+    if (capacity < 0)
+        return NULL;
+
+    theStrBuf = (strBufP)malloc(sizeof(strBuf));
+
+    if (theStrBuf != NULL)
+    {
+        theStrBuf->buf = (char *)malloc((capacity + 1) * sizeof(char));
+        if (theStrBuf->buf == NULL)
+        {
+            free(theStrBuf);
+            theStrBuf = NULL;
+        }
+    }
+
+    if (theStrBuf != NULL)
+    {
+        theStrBuf->capacity = capacity;
+        sb_ClearBuf(theStrBuf);
+    }
+
+    return theStrBuf;
+}
+
+/********************************************************************
+ sb_Free()
+ Receives a pointer-pointer to a string buffer.
+ Frees the memory of the string buffer structure and the string buffer
+ it contains. Using the pointer-pointer, sets the pointer to NULL.
+ ********************************************************************/
+void sb_Free(strBufP *pStrBuf)
+{
+    if (pStrBuf != NULL && *pStrBuf != NULL)
+    {
+        (*pStrBuf)->capacity = (*pStrBuf)->size = (*pStrBuf)->readPos = 0;
+
+        if ((*pStrBuf)->buf != NULL)
+            free((*pStrBuf)->buf);
+        (*pStrBuf)->buf = NULL;
+
+        free(*pStrBuf);
+        *pStrBuf = NULL;
+    }
+}
+
+/********************************************************************
+ sb_CleareBuf()
+ The string buffer is changed, if not NULL, to hold an empty string,
+ including setting the size and position to 0. The capacity is not
+ changed.
+ ********************************************************************/
+void sb_ClearBuf(strBufP theStrBuf)
+{
+    if (theStrBuf != NULL)
+    {
+        if (theStrBuf->buf != NULL)
+            theStrBuf->buf[0] = '\0';
+        theStrBuf->size = theStrBuf->readPos = 0;
+    }
+}
+
+/********************************************************************
+ sb_Copy()
+ Receives strBuf pointers for a destination and source.
+ Ensures that the destination has the capacity of the source.
+ Copies the source string content into the destination, and sets the
+ size correctly.
+ Returns OK for success, NOTOK on param or memory allocation error.
+ ********************************************************************/
+int sb_Copy(strBufP strBufDst, strBufP strBufSrc)
+{
+    char *tempBuf;
+    strBufP newStrBuf = sb_Duplicate(strBufSrc);
+
+    if (strBufDst == NULL || strBufSrc == NULL || newStrBuf == NULL)
+    {
+        sb_Free(&newStrBuf);
+        return NOTOK;
+    }
+
+    tempBuf = strBufDst->buf;
+    strBufDst->buf = newStrBuf->buf;
+    newStrBuf->buf = tempBuf;
+
+    sb_Free(&newStrBuf);
+
+    strBufDst->size = strBufSrc->size;
+    strBufDst->capacity = strBufSrc->capacity;
+    strBufDst->readPos = 0;
+
+    return OK;
+}
+
+/********************************************************************
+ sb_Duplicate()
+ Receives a strBuf pointer. Allocates a new strBuf structure with the
+ same capacity, and initially clears it. If the received strBuf has
+ a non-empty string, then it is copied into the duplicate, and
+ the duplicates size is set correctly.
+ Returns the duplicate, or NULL on memory allocation error.
+ ********************************************************************/
+strBufP sb_Duplicate(strBufP theStrBuf)
+{
+    strBufP newStrBuf = theStrBuf == NULL ? NULL : sb_New(theStrBuf->capacity);
+
+    if (newStrBuf == NULL)
+        return NULL;
+
+    if (theStrBuf->size > 0)
+    {
+        strcpy(newStrBuf->buf, theStrBuf->buf);
+        newStrBuf->size = theStrBuf->size;
+    }
+
+    return newStrBuf;
+}
+
+/********************************************************************
+ sb_ReadSkipWhitespace()
+ Advances the read position managed by the string buffer by skipping
+ any number of whitespace characters, if present.
+ ********************************************************************/
+
+void sb_ReadSkipWhitespace(strBufP theStrBuf)
+{
+    if (theStrBuf != NULL && theStrBuf->buf != NULL)
+    {
+        while (isspace(theStrBuf->buf[theStrBuf->readPos]))
+            theStrBuf->readPos++;
+    }
+}
+
+/********************************************************************
+ sb_ReadSkipInteger()
+ Advances the read position managed by the string buffer by skipping
+ an initial negative sign, if present, then skipping any number of
+ numeric digits, if present.
+ ********************************************************************/
+void sb_ReadSkipInteger(strBufP theStrBuf)
+{
+    if (theStrBuf != NULL && theStrBuf->buf != NULL)
+    {
+        if (theStrBuf->buf[theStrBuf->readPos] == '-')
+            theStrBuf->readPos++;
+
+        while (isdigit(theStrBuf->buf[theStrBuf->readPos]))
+            theStrBuf->readPos++;
+    }
+}
+
+/********************************************************************
+ sb_ConcatString()
+ Appends the content of string s to the end of the content already
+ in the string buffer. If the append would exceed the capacity of
+ the buffer, then the buffer capacity is first increased. It is
+ increased to one greater than the sum of the current capacity and the
+ new string size or double the capacity (to ensure the memory space is
+ big enough for both strings and linear time performance over many
+ small concatenations).
+ Returns OK on success, NOTOK on error
+ ********************************************************************/
+int sb_ConcatString(strBufP theStrBuf, char *s)
+{
+    int slen = s == NULL ? 0 : strlen(s);
+
+    if (slen == 0)
+        return OK;
+
+    if (theStrBuf == NULL || theStrBuf->buf == NULL)
+        return NOTOK;
+
+    if (theStrBuf->size + slen > theStrBuf->capacity)
+    {
+        int newLen = theStrBuf->size + slen > 2 * theStrBuf->capacity ? theStrBuf->size + slen : 2 * theStrBuf->capacity;
+        char *newBuf = (char *)malloc((newLen + 1) * sizeof(char));
+
+        if (newBuf == NULL)
+            return NOTOK;
+
+        strcpy(newBuf, theStrBuf->buf);
+        free(theStrBuf->buf);
+        theStrBuf->buf = newBuf;
+        theStrBuf->capacity = newLen;
+    }
+
+    strcpy(theStrBuf->buf + theStrBuf->size, s);
+    theStrBuf->size += slen;
+
+    return OK;
+}
+
+/********************************************************************
+ sb_ConcatChar()
+ Converts ch into a one-character string containing ch, then invokes
+ sb_ConcatStr().
+ Returns Same as sb_ConcatStr()
+ ********************************************************************/
+int sb_ConcatChar(strBufP theStrBuf, char ch)
+{
+    char s[2];
+    s[0] = ch;
+    s[1] = '\0';
+    return sb_ConcatString(theStrBuf, s);
+}
+
+/********************************************************************
+ sb_TakeString()
+ Extracts the buffer string from the received string buffer and
+ returns it. The string buffer is changed to contain a zero length
+ string, so that the buffer can be reused or freed with sb_Free().
+ Returns NULL on error or a string to be freed by the caller on success.
+ ********************************************************************/
+char *sb_TakeString(strBufP theStrBuf)
+{
+    char *theBuf = NULL;
+
+    if (theStrBuf == NULL)
+        return NULL;
+
+    char *newBuf = (char *)malloc(sizeof(char));
+    if (newBuf == NULL)
+        return NULL;
+
+    theBuf = theStrBuf->buf;
+    theStrBuf->buf = newBuf;
+    theStrBuf->buf[0] = '\0';
+    theStrBuf->size = theStrBuf->capacity = theStrBuf->readPos = 0;
+
+    return theBuf;
+}
diff --git a/c/graphLib/planarityRelated/graphTests.c b/c/graphLib/planarityRelated/graphTests.c
index dc8cb1e..eacfec1 100644
--- a/c/graphLib/planarityRelated/graphTests.c
+++ b/c/graphLib/planarityRelated/graphTests.c
@@ -1,978 +1,978 @@
-/*
-Copyright (c) 1997-2022, John M. Boyer
-All rights reserved.
-See the LICENSE.TXT file for licensing information.
-*/
-
-#define GRAPHTEST_C
-
-#include "../graph.h"
-#include "../lowLevelUtils/stack.h"
-
-extern void _ClearVertexVisitedFlags(graphP theGraph, int);
-
-/* Private function declarations */
-
-int _TestPath(graphP theGraph, int U, int V);
-int _TryPath(graphP theGraph, int e, int V);
-void _MarkPath(graphP theGraph, int e);
-int _TestSubgraph(graphP theSubgraph, graphP theGraph);
-
-int _CheckEmbeddingIntegrity(graphP theGraph, graphP origGraph);
-int _CheckEmbeddingFacialIntegrity(graphP theGraph);
-int _CheckObstructionIntegrity(graphP theGraph, graphP origGraph);
-
-int _CheckKuratowskiSubgraphIntegrity(graphP theGraph);
-int _CheckOuterplanarObstructionIntegrity(graphP theGraph);
-
-int _CheckAllVerticesOnExternalFace(graphP theGraph);
-void _MarkExternalFaceVertices(graphP theGraph, int startVertex);
-
-/********************************************************************
- gp_TestEmbedResultIntegrity()
-
-  This function tests the integrity of the graph result returned
-  from gp_Embed().
-
-  The caller of gp_Embed() does not have to save the original graph
-  because, for efficiency, gp_Embed() operates on the input graph.
-  However, to test the integrity of the result relative to the input,
-  a copy of the input graph is required.
-
-  Modules that extend/alter the behavior of gp_Embed() beyond the
-  core planarity embedder and planarity obstruction isolator should
-  also provide overriding integrity test routines appropriate to the
-  extension algorithm.
-
-  The main method first calls gp_SortVertices on theGraph, if the
-  origGraph is not in DFI order (the common case).  Therefore,
-  extension integrity tests can count on a consistent numbering
-  between theGraph and the origGraph, either DFI order or pre-DFS
-  order if that is the state of the origGraph.
-
-  After all tests, the main method ensures theGraph is restored to
-  DFI order by invoking gp_SortVertices if needed, thus ensuring
-  that theGraph has the documented post-condition of gp_Embed().
-
-  For an embedResult of OK, fpCheckEmbeddingIntegrity is invoked.
-  The core planarity implementation does a face walk of all faces
-  of the embedding.  It ensures that all edges were used in the face
-  walk and that the right number of faces exist for the number of
-  vertices and edges. Also, we ensure that all adjacencies expressed
-  in the original graph still exist in the result graph.
-
-  For an embedResult of NONEMBEDDABLE, fpCheckObstructionIntegrity
-  is invoked.  The core planarity algorithm checks that the result
-  graph is homeomorphic to K5 or K3,3 and that it is in fact a
-  subgraph of the input graph.  Other algorithms use overloads to
-  make appropriate checks.
-
-  Returns NOTOK on integrity check failure or embedResult of NOTOK
-          OK for successful integrity check of OK embedResult
-          NONEMBEDDABLE for successful integrity check of an
-                        embedResult of NONEMBEDDABLE
- ********************************************************************/
-
-int gp_TestEmbedResultIntegrity(graphP theGraph, graphP origGraph, int embedResult)
-{
-    int RetVal = embedResult;
-
-    if (theGraph == NULL || origGraph == NULL)
-        return NOTOK;
-
-    if (embedResult == OK)
-    {
-        RetVal = theGraph->functions.fpCheckEmbeddingIntegrity(theGraph, origGraph);
-    }
-    else if (embedResult == NONEMBEDDABLE)
-    {
-        RetVal = theGraph->functions.fpCheckObstructionIntegrity(theGraph, origGraph);
-    }
-
-    if (RetVal == OK)
-        RetVal = embedResult;
-
-    return RetVal;
-}
-
-/********************************************************************
- _CheckEmbeddingIntegrity()
-
-  The core planarity implementation does a face walk of all faces
-  of the embedding.  It ensures that all edges were used in the face
-  walk and that the right number of faces exist for the number of
-  vertices and edges. Also, we ensure that all adjacencies expressed
-  in the original graph still exist in the result graph, accounting
-  for the fact that the result graph is sorted by DFI, but the input
-  may or may not be sorted by DFI.
-
-  returns OK if all integrity tests passed, NOTOK otherwise
- ********************************************************************/
-
-int _CheckEmbeddingIntegrity(graphP theGraph, graphP origGraph)
-{
-    if (theGraph == NULL || origGraph == NULL)
-        return NOTOK;
-
-    if (_TestSubgraph(theGraph, origGraph) != TRUE)
-        return NOTOK;
-
-    if (_TestSubgraph(origGraph, theGraph) != TRUE)
-        return NOTOK;
-
-    // The tests above do not detect a second copy of an edge
-    if (theGraph->M != origGraph->M)
-        return NOTOK;
-
-    if (_CheckEmbeddingFacialIntegrity(theGraph) != OK)
-        return NOTOK;
-
-    if (theGraph->embedFlags == EMBEDFLAGS_OUTERPLANAR)
-    {
-        if (_CheckAllVerticesOnExternalFace(theGraph) != OK)
-            return NOTOK;
-    }
-
-    return OK;
-}
-
-/********************************************************************
- _CheckEmbeddingFacialIntegrity()
-
- This function traverses all faces of a graph structure containing
- the planar embedding that results from gp_Embed().  The algorithm
- begins by placing all of the graph's arcs onto a stack and marking
- all of them as unvisited.  For each arc popped, if it is visited,
- it is immediately discarded and the next arc is popped.  Popping an
- unvisited arc e begins a face traversal.  We move to the true twin
- arc of e, and obtain its successor arc.  This amounts to always
- going clockwise or counterclockwise (depending on how the graph is
- drawn on the plane, or alternately whether one is above or below
- the plane).  This traversal continues until we make it back to the
- original arc e. Each arc along the way is marked as visited.  Further,
- if the successor arc has been visited, then there is an error since
- an arc can only appear in one face (the twin arc appears in a separate
- face, which is traversed in the opposing direction).
- If this algorithm succeeds without double visiting any arcs, and it
- produces the correct face count according to Euler's formula, then
- the embedding has all vertices oriented the same way.
- NOTE:  In disconnected graphs, the face reader counts the external
-        face of each connected component.  So, we adjust the face
-        count by subtracting one for each component, then we add one
-        to count the external face shared by all components.
- ********************************************************************/
-
-int _CheckEmbeddingFacialIntegrity(graphP theGraph)
-{
-    stackP theStack = NULL;
-    int EsizeOccupied, v, e, eTwin, eStart, eNext, NumFaces, connectedComponents;
-
-    if (theGraph == NULL)
-        return NOTOK;
-
-    theStack = theGraph->theStack;
-
-    /* The stack need only contain 2M entries, one for each edge record. With
-            max M at 3N, this amounts to 6N integers of space.  The embedding
-            structure already contains this stack, so we just make sure it
-            starts out empty. */
-
-    sp_ClearStack(theStack);
-
-    /* Push all arcs and set them to unvisited */
-
-    EsizeOccupied = gp_EdgeInUseIndexBound(theGraph);
-    for (e = gp_GetFirstEdge(theGraph); e < EsizeOccupied; e += 2)
-    {
-        // Except skip edge holes
-        if (gp_EdgeInUse(theGraph, e))
-        {
-            sp_Push(theStack, e);
-            gp_ClearEdgeVisited(theGraph, e);
-            eTwin = gp_GetTwinArc(theGraph, e);
-            sp_Push(theStack, eTwin);
-            gp_ClearEdgeVisited(theGraph, eTwin);
-        }
-    }
-
-    // There are M edges, so we better have pushed 2M arcs just now
-    // i.e. testing that the continue above skipped only edge holes
-    if (sp_GetCurrentSize(theStack) != 2 * theGraph->M)
-        return NOTOK;
-
-    /* Read faces until every arc is used */
-
-    NumFaces = 0;
-    while (sp_NonEmpty(theStack))
-    {
-        /* Get an arc; if it has already been used by a face, then
-            don't use it to traverse a new face */
-        sp_Pop(theStack, eStart);
-        if (gp_GetEdgeVisited(theGraph, eStart))
-            continue;
-
-        e = eStart;
-        do
-        {
-            eNext = gp_GetNextArcCircular(theGraph, gp_GetTwinArc(theGraph, e));
-            if (gp_GetEdgeVisited(theGraph, eNext))
-                return NOTOK;
-            gp_SetEdgeVisited(theGraph, eNext);
-            e = eNext;
-        } while (e != eStart);
-        NumFaces++;
-    }
-
-    /* Count the external face once rather than once per connected component;
-        each connected component is detected by the fact that it has no
-        DFS parent, except in the case of isolated vertices, no face was counted
-        so we do not subtract one. */
-
-    connectedComponents = 0;
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-    {
-        if (gp_IsDFSTreeRoot(theGraph, v))
-        {
-            if (gp_GetVertexDegree(theGraph, v) > 0)
-                NumFaces--;
-            connectedComponents++;
-        }
-    }
-
-    NumFaces++;
-
-    /* Test number of faces using the extended Euler's formula.
-         For connected components, Euler's formula is f=m-n+2, but
-         for disconnected graphs it is extended to f=m-n+1+c where
-         c is the number of connected components.*/
-
-    return NumFaces == theGraph->M - theGraph->N + 1 + connectedComponents
-               ? OK
-               : NOTOK;
-}
-
-/********************************************************************
- _CheckAllVerticesOnExternalFace()
-
-  Determines whether or not any vertices have been embedded within
-  the bounding cycle of the external face.
-  The input graph may be disconnected, so this routine walks the
-  external face starting at each vertex with no DFSParent.
-
-  return OK if all vertices visited on external face walks, NOTOK otherwise
- ********************************************************************/
-
-int _CheckAllVerticesOnExternalFace(graphP theGraph)
-{
-    int v;
-
-    // Mark all vertices unvisited
-    _ClearVertexVisitedFlags(theGraph, FALSE);
-
-    // For each connected component, walk its external face and
-    // mark the vertices as visited
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-    {
-        if (gp_IsDFSTreeRoot(theGraph, v))
-            _MarkExternalFaceVertices(theGraph, v);
-    }
-
-    // If any vertex is unvisited, then the embedding is not an outerplanar
-    // embedding, so we return NOTOK
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-        if (!gp_GetVertexVisited(theGraph, v))
-            return NOTOK;
-
-    // All vertices were found on external faces of the connected components
-    // so the embedding is an outerplanar embedding and we return OK
-    return OK;
-}
-
-/********************************************************************
- _MarkExternalFaceVertices()
-
-  Walks the external face of the connected component containing the
-  start vertex, and marks the visited flag of all vertices found.
-  The start vertex is assumed to be on the external face.
-  This method assumed the embedding integrity has already been
-  verified to be correct.
-  This method correctly handles components that have cut vertices,
-  i.e. it does not assume that the outer face is a simple cycle;
-  it only assumes that all vertices are reachable by walking a
-  single face that starts with startVertex.
- ********************************************************************/
-
-void _MarkExternalFaceVertices(graphP theGraph, int startVertex)
-{
-    int nextVertex = startVertex;
-    int e = gp_GetFirstArc(theGraph, nextVertex);
-    int eTwin;
-
-    // Handle the case of an isolated vertex
-    if (gp_IsNotArc(e))
-    {
-        gp_SetVertexVisited(theGraph, startVertex);
-        return;
-    }
-
-    // Process a non-trivial connected component
-    do
-    {
-        gp_SetVertexVisited(theGraph, nextVertex);
-
-        // The arc out of the vertex just visited points to the next vertex
-        nextVertex = gp_GetNeighbor(theGraph, e);
-
-        // Arc used to enter the next vertex is needed so we can get the
-        // next edge in rotation order.
-        // Note: for bicomps, first and last arcs of all external face vertices
-        //       indicate the edges that hold them to the external face
-        //       But _JoinBicomps() has already occurred, so cut vertices
-        //       will have external face edges other than the first and last arcs
-        //       Hence we need this more sophisticated traversal method
-        eTwin = gp_GetTwinArc(theGraph, e);
-
-        // Now we get the next arc in rotation order as the new arc out to the
-        // vertex after nextVertex.  This sets us up for the next iteration.
-        // Note: We cannot simply follow the chain of nextVertex first arcs
-        //       as we started out doing at the top of this method.  This is
-        //       because we are no longer dealing with bicomps only.
-        //       Since _JoinBicomps() has already been invoked, there may now
-        //       be cut vertices on the external face whose adjacency lists
-        //       contain external face arcs in positions other than the first and
-        //       and last arcs.  We will visit those vertices multiple times,
-        //       which is OK (just that we have to explain why we're calculating
-        //       jout in this way).
-        e = gp_GetNextArcCircular(theGraph, eTwin);
-
-        // Now things get really interesting.  The DFS root (startVertex) may
-        // itself be a cut vertex to which multiple bicomps have been joined.
-        // So we cannot simply stop when the external face walk gets back to
-        // startVertex.  We must actually get back to startVertex using its
-        // last arc.  This ensures that we've looped down into all the DFS
-        // subtrees rooted at startVertex and walked their external faces.
-
-        // Since we started the whole external face walk with the first arc
-        // of startVertex, we need to proceed until we reenter startVertex
-        // using its last arc.
-
-    } while (eTwin != gp_GetLastArc(theGraph, startVertex));
-}
-
-/********************************************************************
- _CheckObstructionIntegrity()
-
-  Returns OK if theGraph is a subgraph of origGraph and it contains
-    an allowed homeomorph, and NOTOK otherwise.
-
-  For core planarity, the allowed homeomorphs are K_5 or K_{3,3}
-
-  Extension modules may overload this method to implement different
-  tests.  For example, K_{3,3} search allows only K_{3,3} and
-  outerplanarity allows only K_4 or K_{2,3}.
- ********************************************************************/
-
-int _CheckObstructionIntegrity(graphP theGraph, graphP origGraph)
-{
-    if (theGraph == NULL || origGraph == NULL)
-        return NOTOK;
-
-    if (_TestSubgraph(theGraph, origGraph) != TRUE)
-    {
-        return NOTOK;
-    }
-
-    if (theGraph->embedFlags == EMBEDFLAGS_PLANAR)
-        return _CheckKuratowskiSubgraphIntegrity(theGraph);
-
-    else if (theGraph->embedFlags == EMBEDFLAGS_OUTERPLANAR)
-        return _CheckOuterplanarObstructionIntegrity(theGraph);
-
-    return NOTOK;
-}
-
-/********************************************************************
- _getImageVertices()
-
- Count the number of vertices of each degree and find the locations of
- the image vertices (also sometimes called the corners of the obstruction).
- An image vertex is a vertex of degree three or higher because degree
- 2 vertices are generally internal to the paths between the image
- vertices.
-
- The notable exception is K_{2,3}, an obstruction to outerplanarity.
- This routine does not know the obstruction it is looking for, so the
- caller must decide whether there are any degree 2 vertices that should
- be added to imageVerts.
-
- Return NOTOK if any vertex of degree 1 or higher than the max is found
-        NOTOK if more than the max number of image vertices is found.
-        Return OK otherwise.
- ********************************************************************/
-
-int _getImageVertices(graphP theGraph, int *degrees, int maxDegree,
-                      int *imageVerts, int maxNumImageVerts)
-{
-    int K, v, imageVertPos, degree;
-
-    for (degree = 0; degree <= maxDegree; degree++)
-        degrees[degree] = 0;
-
-    for (K = 0; K < maxNumImageVerts; K++)
-        imageVerts[K] = NIL;
-
-    imageVertPos = 0;
-
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-    {
-        degree = gp_GetVertexDegree(theGraph, v);
-        if (degree == 1)
-            return NOTOK;
-        if (degree > maxDegree)
-            return NOTOK;
-
-        degrees[degree]++;
-
-        if (imageVertPos < maxNumImageVerts && degree > 2)
-            imageVerts[imageVertPos++] = v;
-        else if (degree > 2)
-            return NOTOK;
-    }
-
-    return OK;
-}
-
-/********************************************************************
- _TestForCompleteGraphObstruction()
-
- theGraph - the graph to test
- numVerts - the number of image vertices (corners) of the complete
-            graph homeomorph being tested for (e.g. 5 for a K5)
- degrees -  array of counts of the number of vertices of each degree
-            given by the array index.  Only valid up to numVerts-1
- imageVerts - the vertices of degree numVerts-1
-
- This routine tests whether theGraph is a K_{numVerts} homeomorph for
- numVerts >= 4.
-
- returns FALSE if numVerts < 4,
-               if theGraph has other than numVerts image vertices
-               if theGraph contains other than degree 2 vertices plus
-                  the image vertices
-               if any pair of image vertices lacks a connecting path
-               if any degree two vertices are not in the connecting paths
-         TRUE  otherwise
- ********************************************************************/
-
-int _TestForCompleteGraphObstruction(graphP theGraph, int numVerts,
-                                     int *degrees, int *imageVerts)
-{
-    int v, w;
-
-    // We need to make sure we have numVerts vertices of degree numVerts-1
-    // For example, if numVerts==5, then we're looking for a K5, so we
-    // need to have degrees[4] == 5 (5 vertices of degree 4)
-    if (degrees[numVerts - 1] != numVerts)
-        return FALSE;
-
-    // All vertices need to be degree 0, degree 2 or degree numVerts-1
-    if (degrees[0] + degrees[2] + degrees[numVerts - 1] != theGraph->N)
-        return FALSE;
-
-    // We clear all the vertex visited flags
-    _ClearVertexVisitedFlags(theGraph, FALSE);
-
-    // For each pair of image vertices, we test that there is a path
-    // between the two vertices.  If so, the visited flags of the
-    // internal vertices along the path are marked
-    //
-    for (v = 0; v < numVerts; v++)
-        for (w = 0; w < numVerts; w++)
-            if (v != w)
-                if (_TestPath(theGraph, imageVerts[v],
-                              imageVerts[w]) != TRUE)
-                    return FALSE;
-
-    // The visited flags should have marked only degree two vertices,
-    // so for every marked vertex, we subtract one from the count of
-    // the degree two vertices.
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-        if (gp_GetVertexVisited(theGraph, v))
-            degrees[2]--;
-
-    /* If every degree 2 vertex is used in a path between image
-        vertices, then there are no extra pieces of the graph
-        in theGraph.  Specifically, the prior tests identify
-        a K_5 and ensure that nothing else could exist in the
-        graph except extra degree 2 vertices, which must be
-        joined in a cycle so that all are degree 2. */
-
-    return degrees[2] == 0 ? TRUE : FALSE;
-}
-
-/********************************************************************
- _TestForK33GraphObstruction()
-
- theGraph - the graph to test
- degrees -  array of counts of the number of vertices of each degree
-            given by the array index.  Only valid up to numVerts-1
- imageVerts - the degree 3 vertices of the K3,3 homeomorph
-
- This routine tests whether theGraph is a K_{3,3} homeomorph.
-
- returns TRUE if so, FALSE if not
- ********************************************************************/
-
-int _TestForK33GraphObstruction(graphP theGraph, int *degrees, int *imageVerts)
-{
-    int v, K, imageVertPos, temp, success;
-
-    if (degrees[4] != 0)
-        return FALSE;
-
-    if (degrees[3] != 6)
-        return FALSE;
-
-    /* Partition the six image vertices into two sets of 3
-           (or report failure) */
-
-    for (imageVertPos = 3; imageVertPos < 6; imageVertPos++)
-    {
-        K = 0;
-        success = FALSE;
-        do
-        {
-            if (_TestPath(theGraph, imageVerts[imageVertPos], imageVerts[0]) == TRUE)
-            {
-                success = TRUE;
-                break;
-            }
-
-            K++;
-            temp = imageVerts[K];
-            imageVerts[K] = imageVerts[imageVertPos];
-            imageVerts[imageVertPos] = temp;
-        } while (K < 3);
-
-        if (!success)
-            return FALSE;
-    }
-
-    /* Now test the paths between each of the first three vertices and
-           each of the last three vertices */
-
-    _ClearVertexVisitedFlags(theGraph, FALSE);
-
-    for (imageVertPos = 0; imageVertPos < 3; imageVertPos++)
-        for (K = 3; K < 6; K++)
-            if (_TestPath(theGraph, imageVerts[imageVertPos],
-                          imageVerts[K]) != TRUE)
-                return FALSE;
-
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-        if (gp_GetVertexVisited(theGraph, v))
-            degrees[2]--;
-
-    /* If every degree 2 vertex is used in a path between image
-           vertices, then there are no extra pieces of the graph
-           in theGraph.  Specifically, the prior tests identify
-           a K_{3,3} and ensure that nothing else could exist in the
-           graph except extra degree 2 vertices, which must be
-           joined in a cycle so that all are degree 2. */
-
-    return degrees[2] == 0 ? TRUE : FALSE;
-}
-
-/********************************************************************
- _CheckKuratowskiSubgraphIntegrity()
-
- This function checks whether theGraph received as input contains
- either a K_5 or K_{3,3} homeomorph.
-
- RETURNS:   OK if theGraph contains a K_5 or K_{3,3} homeomorph,
-            NOTOK otherwise
-
- To be a K_5 homeomorph, there must be exactly 5 vertices of degree 4,
- which are called 'image' vertices, and all other vertices must be
- either degree 2 or degree 0. Furthermore, each of the image vertices
- must be able to reach all of the other image vertices by a single edge
- or a path of degree two vertices.
-
- To be a K_{3,3} homeomorph, there must be exactly 6 vertices of degree 3,
- which are called 'image' vertices, and all other vertices must be either
- degree 2 or degree 0.  Furthermore, the image vertices must be connected
- by edges or paths of degree two vertices in the manner suggested by
- a K_{3,3}.  To test this, we select an image vertex U, and determine
- three image vertices X, Y and Z reachable from U by single edges or
- paths of degree 2 vertices.  Then, we check that the two remaining image
- vertices, V and W, can also reach X, Y and Z by single edges or paths of
- degree 2 vertices.
-
- It is not necessary to check that the paths between the image vertices
- are distinct since if the paths had a common vertex, then the common
- vertex would not be degree 2.
- ********************************************************************/
-
-int _CheckKuratowskiSubgraphIntegrity(graphP theGraph)
-{
-    int degrees[5], imageVerts[6];
-
-    if (_getImageVertices(theGraph, degrees, 4, imageVerts, 6) != OK)
-        return NOTOK;
-
-    if (_TestForCompleteGraphObstruction(theGraph, 5, degrees, imageVerts) == TRUE)
-    {
-        return OK;
-    }
-
-    if (_TestForK33GraphObstruction(theGraph, degrees, imageVerts) == TRUE)
-    {
-        return OK;
-    }
-
-    return NOTOK;
-}
-
-/********************************************************************
- _TestForK23GraphObstruction()
-
- theGraph - the graph to test
- degrees -  array of counts of the number of vertices of each degree
-            given by the array index.  Only valid up to numVerts-1
- imageVerts - the degree 3 vertices of the K2,3 homeomorph
-
- This routine tests whether theGraph is a K_{2,3} homeomorph.
- This routine operates over the results of _getImageVertices()
-
- returns TRUE if so, FALSE if not
- ********************************************************************/
-
-int _TestForK23GraphObstruction(graphP theGraph, int *degrees, int *imageVerts)
-{
-    int v, e, imageVertPos;
-
-    // This function operates over the imageVerts results produced by
-    // getImageVertices, which only finds vertices of degree 3 or higher.
-    // So, for a K2,3, there must be exactly two degree 3 vertices and
-    // no degree 4 vertices.
-    if (degrees[3] != 2)
-        return FALSE;
-
-    // For K_{2,3}, the three vertices of degree 2 were not
-    // detected as image vertices because degree 2 vertices
-    // are indistinguishable from the internal path vertices
-    // between the image vertices.  So, here we acknowledge
-    // that more image vertices need to be selected.
-    imageVertPos = 2;
-
-    // Assign the remaining three image vertices to be the
-    // neighbors of the first degree 3 image vertex.
-    // Ensure that each is distinct from the second
-    // degree 3 image vertex. This must be the case because
-    // the two degree 3 image vertices are in the same partition
-    // and hence must not be adjacent.
-
-    e = gp_GetFirstArc(theGraph, imageVerts[0]);
-    while (gp_IsArc(e))
-    {
-        imageVerts[imageVertPos] = gp_GetNeighbor(theGraph, e);
-        if (imageVerts[imageVertPos] == imageVerts[1])
-            return FALSE;
-        imageVertPos++;
-        e = gp_GetNextArc(theGraph, e);
-    }
-
-    /* The paths from imageVerts[0] to each of the new degree 2
-         image vertices are the edges we just traversed.
-         Now test the paths between each of the degree 2 image
-         vertices and imageVerts[1]. */
-
-    _ClearVertexVisitedFlags(theGraph, FALSE);
-
-    for (imageVertPos = 2; imageVertPos < 5; imageVertPos++)
-    {
-        if (_TestPath(theGraph, imageVerts[imageVertPos],
-                      imageVerts[1]) != TRUE)
-            return FALSE;
-
-        gp_SetVertexVisited(theGraph, imageVerts[imageVertPos]);
-    }
-
-    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-        if (gp_GetVertexVisited(theGraph, v))
-            degrees[2]--;
-
-    /* If every degree 2 vertex is used in a path between the
-         two degree 3 image vertices, then there are no extra
-         pieces of the graph in theGraph.  Specifically, the
-         prior tests identify a K_{2,3} and ensure that nothing
-         else could exist in the graph... except extra degree 2
-         vertices joined in a cycle. We return NOTOK in that case. */
-
-    return degrees[2] == 0 ? TRUE : FALSE;
-}
-
-/********************************************************************
- _CheckOuterplanarObstructionIntegrity()
-
- This function checks whether theGraph received as input contains
- either a K_4 or K_{2,3} homeomorph.
-
- RETURNS:   OK if theGraph contains a K_4 or K_{2,3} homeomorph,
-            NOTOK otherwise
-
- To be a K_4 homeomorph, there must be exactly 4 vertices of degree 3,
- which are called 'image' vertices, and all other vertices must be
- either degree 2 or degree 0. Furthermore, each of the image vertices
- must be able to reach all of the other image vertices by a single edge
- or a path of degree two vertices.
-
- To be a K_{2,3} homeomorph, there must be exactly 2 vertices of degree 3.
- All other vertices must be degree 2.  Furthermore, the two degree 3
- vertices must have three internally disjoint paths connecting them,
- and each path must contain at least two edges (i.e. at least one internal
- vertex).  The two degree 3 vertices are image vertices, and an internal
- vertex from each of the three paths contributes the remaining three
- image vertices.
-
- It is not necessary to check that the paths between the degree three
- vertices are distinct since if the paths had a common vertex, then the
- common vertex would not be degree 2.
- ********************************************************************/
-
-int _CheckOuterplanarObstructionIntegrity(graphP theGraph)
-{
-    int degrees[4], imageVerts[5];
-
-    if (_getImageVertices(theGraph, degrees, 3, imageVerts, 5) != OK)
-        return NOTOK;
-
-    if (_TestForCompleteGraphObstruction(theGraph, 4, degrees, imageVerts) == TRUE)
-    {
-        return OK;
-    }
-
-    if (_TestForK23GraphObstruction(theGraph, degrees, imageVerts) == TRUE)
-    {
-        return OK;
-    }
-
-    /* We get here only if we failed to recognize an outerplanarity
-        obstruction, so we return failure */
-
-    return NOTOK;
-}
-
-/********************************************************************
- _TestPath()
-
- This function determines whether there exists a path of degree two
- vertices between two given vertices.  The function marks each
- degree two vertex as visited.  It returns TRUE if it finds the
- path and FALSE otherwise.
- ********************************************************************/
-
-int _TestPath(graphP theGraph, int U, int V)
-{
-    int e = gp_GetFirstArc(theGraph, U);
-
-    while (gp_IsArc(e))
-    {
-        if (_TryPath(theGraph, e, V) == OK)
-        {
-            _MarkPath(theGraph, e);
-            return TRUE;
-        }
-
-        e = gp_GetNextArc(theGraph, e);
-    }
-
-    return FALSE;
-}
-
-/********************************************************************
- _TryPath()
-
- This function seeks a given path to a vertex V starting with a
- given edge out of a starting vertex U.  The path is allowed to
- contain zero or more degree two vertices, but we stop as soon as
- a vertex of degree higher than two is encountered.
- The function returns boolean true if that vertex is V, and
- boolean false otherwise.
- ********************************************************************/
-
-int _TryPath(graphP theGraph, int e, int V)
-{
-    int eTwin, nextVertex;
-
-    nextVertex = gp_GetNeighbor(theGraph, e);
-
-    // while nextVertex is strictly degree 2
-    while (gp_IsArc(gp_GetFirstArc(theGraph, nextVertex)) &&
-           gp_IsArc(gp_GetLastArc(theGraph, nextVertex)) &&
-           gp_GetNextArc(theGraph, gp_GetFirstArc(theGraph, nextVertex)) == gp_GetLastArc(theGraph, nextVertex))
-    {
-        eTwin = gp_GetTwinArc(theGraph, e);
-        e = gp_GetFirstArc(theGraph, nextVertex);
-        if (e == eTwin)
-            e = gp_GetLastArc(theGraph, nextVertex);
-
-        nextVertex = gp_GetNeighbor(theGraph, e);
-    }
-
-    return nextVertex == V ? TRUE : FALSE;
-}
-
-/********************************************************************
- _MarkPath()
-
- This function sets the visitation flag on all degree two vertices
- along a path to a vertex V that starts with a given edge out of
- a starting vertex U.
- ********************************************************************/
-
-void _MarkPath(graphP theGraph, int e)
-{
-    int eTwin, nextVertex;
-
-    nextVertex = gp_GetNeighbor(theGraph, e);
-    // while nextVertex is strictly degree 2
-    while (gp_IsArc(gp_GetFirstArc(theGraph, nextVertex)) &&
-           gp_IsArc(gp_GetLastArc(theGraph, nextVertex)) &&
-           gp_GetNextArc(theGraph, gp_GetFirstArc(theGraph, nextVertex)) == gp_GetLastArc(theGraph, nextVertex))
-    {
-        gp_SetVertexVisited(theGraph, nextVertex);
-
-        eTwin = gp_GetTwinArc(theGraph, e);
-        e = gp_GetFirstArc(theGraph, nextVertex);
-        if (e == eTwin)
-            e = gp_GetLastArc(theGraph, nextVertex);
-
-        nextVertex = gp_GetNeighbor(theGraph, e);
-    }
-}
-
-/********************************************************************
- _TestSubgraph()
- Checks whether theSubgraph is in fact a subgraph of theGraph.
- For each vertex v in graph G and subgraph H, we iterate the adjacency
- list of H(v) and, for each neighbor w, we mark G(w).  Then, we
- iterate the adjacency list of G(v) and unmark each neighbor.  Then,
- we iterate the adjacency list of H(v) again to ensure that every
- neighbor w was unmarked.  If there exists a marked neighbor, then
- H(v) contains an incident edge that is not incident to G(v).
-
- Returns TRUE if theSubgraph contains only edges from theGraph,
-         FALSE otherwise
- ********************************************************************/
-
-int _TestSubgraph(graphP theSubgraph, graphP theGraph)
-{
-    int v, e, degreeCount;
-    int Result = TRUE;
-    int invokeSortOnGraph = FALSE;
-    int invokeSortOnSubgraph = FALSE;
-
-    // A subgraph on the same vertices has the same order
-    if (theSubgraph->N != theGraph->N)
-        return FALSE;
-
-    // If the graph is not sorted by DFI, but the alleged subgraph is,
-    // then "unsort" the alleged subgraph so both have the same vertex order
-    if (!(theGraph->internalFlags & FLAGS_SORTEDBYDFI) &&
-        (theSubgraph->internalFlags & FLAGS_SORTEDBYDFI))
-    {
-        invokeSortOnSubgraph = TRUE;
-        gp_SortVertices(theSubgraph);
-    }
-
-    // If the graph is not sorted by DFI, but the alleged subgraph is,
-    // then "unsort" the alleged subgraph so both have the same vertex order
-    if (!(theSubgraph->internalFlags & FLAGS_SORTEDBYDFI) &&
-        (theGraph->internalFlags & FLAGS_SORTEDBYDFI))
-    {
-        invokeSortOnGraph = TRUE;
-        gp_SortVertices(theGraph);
-    }
-
-    /* We clear all visitation flags */
-
-    _ClearVertexVisitedFlags(theGraph, FALSE);
-
-    /* For each vertex... */
-    for (v = gp_GetFirstVertex(theSubgraph), degreeCount = 0; gp_VertexInRange(theSubgraph, v); v++)
-    {
-        /* For each neighbor w in the adjacency list of vertex v in the
-              subgraph, set the visited flag in w in the graph */
-
-        e = gp_GetFirstArc(theSubgraph, v);
-        while (gp_IsArc(e))
-        {
-            if (gp_IsNotVertex(gp_GetNeighbor(theSubgraph, e)))
-            {
-                Result = FALSE;
-                break;
-            }
-            degreeCount++;
-            gp_SetVertexVisited(theGraph, gp_GetNeighbor(theSubgraph, e));
-            e = gp_GetNextArc(theSubgraph, e);
-        }
-
-        if (Result != TRUE)
-            break;
-
-        /* For each neighbor w in the adjacency list of vertex v in the graph,
-              clear the visited flag in w in the graph */
-
-        e = gp_GetFirstArc(theGraph, v);
-        while (gp_IsArc(e))
-        {
-            if (gp_IsNotVertex(gp_GetNeighbor(theGraph, e)))
-            {
-                Result = FALSE;
-                break;
-            }
-            gp_ClearVertexVisited(theGraph, gp_GetNeighbor(theGraph, e));
-            e = gp_GetNextArc(theGraph, e);
-        }
-
-        if (Result != TRUE)
-            break;
-
-        /* For each neighbor w in the adjacency list of vertex v in the subgraph,
-           ensure that the visited flag in w was cleared (otherwise, the "subgraph"
-           would incorrectly contain an adjacency not contained in the ("super") graph) */
-
-        e = gp_GetFirstArc(theSubgraph, v);
-        while (gp_IsArc(e))
-        {
-            if (gp_GetVertexVisited(theGraph, gp_GetNeighbor(theSubgraph, e)))
-            {
-                Result = FALSE;
-                break;
-            }
-            e = gp_GetNextArc(theSubgraph, e);
-        }
-
-        if (Result != TRUE)
-            break;
-    }
-
-    // Restore the DFI sort order of either graph if it had to be reordered at the start
-    if (invokeSortOnSubgraph)
-        gp_SortVertices(theSubgraph);
-    if (invokeSortOnGraph)
-        gp_SortVertices(theGraph);
-
-    // Assuming theSubgraph is a subgraph, we also do an extra integrity check to ensure
-    // proper edge array utilization
-    if (Result == TRUE)
-    {
-        // If the edge count is wrong, we fail the subgraph test in a way that invokes
-        // the name NOTOK so that in debug mode there is more trace on the failure.
-        if (degreeCount != 2 * theSubgraph->M)
-            Result = NOTOK == FALSE ? NOTOK : FALSE;
-    }
-
-    return Result;
-}
+/*
+Copyright (c) 1997-2022, John M. Boyer
+All rights reserved.
+See the LICENSE.TXT file for licensing information.
+*/
+
+#define GRAPHTEST_C
+
+#include "../graph.h"
+#include "../lowLevelUtils/stack.h"
+
+extern void _ClearVertexVisitedFlags(graphP theGraph, int);
+
+/* Private function declarations */
+
+int _TestPath(graphP theGraph, int U, int V);
+int _TryPath(graphP theGraph, int e, int V);
+void _MarkPath(graphP theGraph, int e);
+int _TestSubgraph(graphP theSubgraph, graphP theGraph);
+
+int _CheckEmbeddingIntegrity(graphP theGraph, graphP origGraph);
+int _CheckEmbeddingFacialIntegrity(graphP theGraph);
+int _CheckObstructionIntegrity(graphP theGraph, graphP origGraph);
+
+int _CheckKuratowskiSubgraphIntegrity(graphP theGraph);
+int _CheckOuterplanarObstructionIntegrity(graphP theGraph);
+
+int _CheckAllVerticesOnExternalFace(graphP theGraph);
+void _MarkExternalFaceVertices(graphP theGraph, int startVertex);
+
+/********************************************************************
+ gp_TestEmbedResultIntegrity()
+
+  This function tests the integrity of the graph result returned
+  from gp_Embed().
+
+  The caller of gp_Embed() does not have to save the original graph
+  because, for efficiency, gp_Embed() operates on the input graph.
+  However, to test the integrity of the result relative to the input,
+  a copy of the input graph is required.
+
+  Modules that extend/alter the behavior of gp_Embed() beyond the
+  core planarity embedder and planarity obstruction isolator should
+  also provide overriding integrity test routines appropriate to the
+  extension algorithm.
+
+  The main method first calls gp_SortVertices on theGraph, if the
+  origGraph is not in DFI order (the common case).  Therefore,
+  extension integrity tests can count on a consistent numbering
+  between theGraph and the origGraph, either DFI order or pre-DFS
+  order if that is the state of the origGraph.
+
+  After all tests, the main method ensures theGraph is restored to
+  DFI order by invoking gp_SortVertices if needed, thus ensuring
+  that theGraph has the documented post-condition of gp_Embed().
+
+  For an embedResult of OK, fpCheckEmbeddingIntegrity is invoked.
+  The core planarity implementation does a face walk of all faces
+  of the embedding.  It ensures that all edges were used in the face
+  walk and that the right number of faces exist for the number of
+  vertices and edges. Also, we ensure that all adjacencies expressed
+  in the original graph still exist in the result graph.
+
+  For an embedResult of NONEMBEDDABLE, fpCheckObstructionIntegrity
+  is invoked.  The core planarity algorithm checks that the result
+  graph is homeomorphic to K5 or K3,3 and that it is in fact a
+  subgraph of the input graph.  Other algorithms use overloads to
+  make appropriate checks.
+
+  Returns NOTOK on integrity check failure or embedResult of NOTOK
+          OK for successful integrity check of OK embedResult
+          NONEMBEDDABLE for successful integrity check of an
+                        embedResult of NONEMBEDDABLE
+ ********************************************************************/
+
+int gp_TestEmbedResultIntegrity(graphP theGraph, graphP origGraph, int embedResult)
+{
+    int RetVal = embedResult;
+
+    if (theGraph == NULL || origGraph == NULL)
+        return NOTOK;
+
+    if (embedResult == OK)
+    {
+        RetVal = theGraph->functions.fpCheckEmbeddingIntegrity(theGraph, origGraph);
+    }
+    else if (embedResult == NONEMBEDDABLE)
+    {
+        RetVal = theGraph->functions.fpCheckObstructionIntegrity(theGraph, origGraph);
+    }
+
+    if (RetVal == OK)
+        RetVal = embedResult;
+
+    return RetVal;
+}
+
+/********************************************************************
+ _CheckEmbeddingIntegrity()
+
+  The core planarity implementation does a face walk of all faces
+  of the embedding.  It ensures that all edges were used in the face
+  walk and that the right number of faces exist for the number of
+  vertices and edges. Also, we ensure that all adjacencies expressed
+  in the original graph still exist in the result graph, accounting
+  for the fact that the result graph is sorted by DFI, but the input
+  may or may not be sorted by DFI.
+
+  returns OK if all integrity tests passed, NOTOK otherwise
+ ********************************************************************/
+
+int _CheckEmbeddingIntegrity(graphP theGraph, graphP origGraph)
+{
+    if (theGraph == NULL || origGraph == NULL)
+        return NOTOK;
+
+    if (_TestSubgraph(theGraph, origGraph) != TRUE)
+        return NOTOK;
+
+    if (_TestSubgraph(origGraph, theGraph) != TRUE)
+        return NOTOK;
+
+    // The tests above do not detect a second copy of an edge
+    if (theGraph->M != origGraph->M)
+        return NOTOK;
+
+    if (_CheckEmbeddingFacialIntegrity(theGraph) != OK)
+        return NOTOK;
+
+    if (theGraph->embedFlags == EMBEDFLAGS_OUTERPLANAR)
+    {
+        if (_CheckAllVerticesOnExternalFace(theGraph) != OK)
+            return NOTOK;
+    }
+
+    return OK;
+}
+
+/********************************************************************
+ _CheckEmbeddingFacialIntegrity()
+
+ This function traverses all faces of a graph structure containing
+ the planar embedding that results from gp_Embed().  The algorithm
+ begins by placing all of the graph's arcs onto a stack and marking
+ all of them as unvisited.  For each arc popped, if it is visited,
+ it is immediately discarded and the next arc is popped.  Popping an
+ unvisited arc e begins a face traversal.  We move to the true twin
+ arc of e, and obtain its successor arc.  This amounts to always
+ going clockwise or counterclockwise (depending on how the graph is
+ drawn on the plane, or alternately whether one is above or below
+ the plane).  This traversal continues until we make it back to the
+ original arc e. Each arc along the way is marked as visited.  Further,
+ if the successor arc has been visited, then there is an error since
+ an arc can only appear in one face (the twin arc appears in a separate
+ face, which is traversed in the opposing direction).
+ If this algorithm succeeds without double visiting any arcs, and it
+ produces the correct face count according to Euler's formula, then
+ the embedding has all vertices oriented the same way.
+ NOTE:  In disconnected graphs, the face reader counts the external
+        face of each connected component.  So, we adjust the face
+        count by subtracting one for each component, then we add one
+        to count the external face shared by all components.
+ ********************************************************************/
+
+int _CheckEmbeddingFacialIntegrity(graphP theGraph)
+{
+    stackP theStack = NULL;
+    int EsizeOccupied, v, e, eTwin, eStart, eNext, NumFaces, connectedComponents;
+
+    if (theGraph == NULL)
+        return NOTOK;
+
+    theStack = theGraph->theStack;
+
+    /* The stack need only contain 2M entries, one for each edge record. With
+            max M at 3N, this amounts to 6N integers of space.  The embedding
+            structure already contains this stack, so we just make sure it
+            starts out empty. */
+
+    sp_ClearStack(theStack);
+
+    /* Push all arcs and set them to unvisited */
+
+    EsizeOccupied = gp_EdgeInUseIndexBound(theGraph);
+    for (e = gp_GetFirstEdge(theGraph); e < EsizeOccupied; e += 2)
+    {
+        // Except skip edge holes
+        if (gp_EdgeInUse(theGraph, e))
+        {
+            sp_Push(theStack, e);
+            gp_ClearEdgeVisited(theGraph, e);
+            eTwin = gp_GetTwinArc(theGraph, e);
+            sp_Push(theStack, eTwin);
+            gp_ClearEdgeVisited(theGraph, eTwin);
+        }
+    }
+
+    // There are M edges, so we better have pushed 2M arcs just now
+    // i.e. testing that the continue above skipped only edge holes
+    if (sp_GetCurrentSize(theStack) != 2 * theGraph->M)
+        return NOTOK;
+
+    /* Read faces until every arc is used */
+
+    NumFaces = 0;
+    while (sp_NonEmpty(theStack))
+    {
+        /* Get an arc; if it has already been used by a face, then
+            don't use it to traverse a new face */
+        sp_Pop(theStack, eStart);
+        if (gp_GetEdgeVisited(theGraph, eStart))
+            continue;
+
+        e = eStart;
+        do
+        {
+            eNext = gp_GetNextArcCircular(theGraph, gp_GetTwinArc(theGraph, e));
+            if (gp_GetEdgeVisited(theGraph, eNext))
+                return NOTOK;
+            gp_SetEdgeVisited(theGraph, eNext);
+            e = eNext;
+        } while (e != eStart);
+        NumFaces++;
+    }
+
+    /* Count the external face once rather than once per connected component;
+        each connected component is detected by the fact that it has no
+        DFS parent, except in the case of isolated vertices, no face was counted
+        so we do not subtract one. */
+
+    connectedComponents = 0;
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+    {
+        if (gp_IsDFSTreeRoot(theGraph, v))
+        {
+            if (gp_GetVertexDegree(theGraph, v) > 0)
+                NumFaces--;
+            connectedComponents++;
+        }
+    }
+
+    NumFaces++;
+
+    /* Test number of faces using the extended Euler's formula.
+         For connected components, Euler's formula is f=m-n+2, but
+         for disconnected graphs it is extended to f=m-n+1+c where
+         c is the number of connected components.*/
+
+    return NumFaces == theGraph->M - theGraph->N + 1 + connectedComponents
+               ? OK
+               : NOTOK;
+}
+
+/********************************************************************
+ _CheckAllVerticesOnExternalFace()
+
+  Determines whether or not any vertices have been embedded within
+  the bounding cycle of the external face.
+  The input graph may be disconnected, so this routine walks the
+  external face starting at each vertex with no DFSParent.
+
+  return OK if all vertices visited on external face walks, NOTOK otherwise
+ ********************************************************************/
+
+int _CheckAllVerticesOnExternalFace(graphP theGraph)
+{
+    int v;
+
+    // Mark all vertices unvisited
+    _ClearVertexVisitedFlags(theGraph, FALSE);
+
+    // For each connected component, walk its external face and
+    // mark the vertices as visited
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+    {
+        if (gp_IsDFSTreeRoot(theGraph, v))
+            _MarkExternalFaceVertices(theGraph, v);
+    }
+
+    // If any vertex is unvisited, then the embedding is not an outerplanar
+    // embedding, so we return NOTOK
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+        if (!gp_GetVertexVisited(theGraph, v))
+            return NOTOK;
+
+    // All vertices were found on external faces of the connected components
+    // so the embedding is an outerplanar embedding and we return OK
+    return OK;
+}
+
+/********************************************************************
+ _MarkExternalFaceVertices()
+
+  Walks the external face of the connected component containing the
+  start vertex, and marks the visited flag of all vertices found.
+  The start vertex is assumed to be on the external face.
+  This method assumed the embedding integrity has already been
+  verified to be correct.
+  This method correctly handles components that have cut vertices,
+  i.e. it does not assume that the outer face is a simple cycle;
+  it only assumes that all vertices are reachable by walking a
+  single face that starts with startVertex.
+ ********************************************************************/
+
+void _MarkExternalFaceVertices(graphP theGraph, int startVertex)
+{
+    int nextVertex = startVertex;
+    int e = gp_GetFirstArc(theGraph, nextVertex);
+    int eTwin;
+
+    // Handle the case of an isolated vertex
+    if (gp_IsNotArc(e))
+    {
+        gp_SetVertexVisited(theGraph, startVertex);
+        return;
+    }
+
+    // Process a non-trivial connected component
+    do
+    {
+        gp_SetVertexVisited(theGraph, nextVertex);
+
+        // The arc out of the vertex just visited points to the next vertex
+        nextVertex = gp_GetNeighbor(theGraph, e);
+
+        // Arc used to enter the next vertex is needed so we can get the
+        // next edge in rotation order.
+        // Note: for bicomps, first and last arcs of all external face vertices
+        //       indicate the edges that hold them to the external face
+        //       But _JoinBicomps() has already occurred, so cut vertices
+        //       will have external face edges other than the first and last arcs
+        //       Hence we need this more sophisticated traversal method
+        eTwin = gp_GetTwinArc(theGraph, e);
+
+        // Now we get the next arc in rotation order as the new arc out to the
+        // vertex after nextVertex.  This sets us up for the next iteration.
+        // Note: We cannot simply follow the chain of nextVertex first arcs
+        //       as we started out doing at the top of this method.  This is
+        //       because we are no longer dealing with bicomps only.
+        //       Since _JoinBicomps() has already been invoked, there may now
+        //       be cut vertices on the external face whose adjacency lists
+        //       contain external face arcs in positions other than the first and
+        //       and last arcs.  We will visit those vertices multiple times,
+        //       which is OK (just that we have to explain why we're calculating
+        //       jout in this way).
+        e = gp_GetNextArcCircular(theGraph, eTwin);
+
+        // Now things get really interesting.  The DFS root (startVertex) may
+        // itself be a cut vertex to which multiple bicomps have been joined.
+        // So we cannot simply stop when the external face walk gets back to
+        // startVertex.  We must actually get back to startVertex using its
+        // last arc.  This ensures that we've looped down into all the DFS
+        // subtrees rooted at startVertex and walked their external faces.
+
+        // Since we started the whole external face walk with the first arc
+        // of startVertex, we need to proceed until we reenter startVertex
+        // using its last arc.
+
+    } while (eTwin != gp_GetLastArc(theGraph, startVertex));
+}
+
+/********************************************************************
+ _CheckObstructionIntegrity()
+
+  Returns OK if theGraph is a subgraph of origGraph and it contains
+    an allowed homeomorph, and NOTOK otherwise.
+
+  For core planarity, the allowed homeomorphs are K_5 or K_{3,3}
+
+  Extension modules may overload this method to implement different
+  tests.  For example, K_{3,3} search allows only K_{3,3} and
+  outerplanarity allows only K_4 or K_{2,3}.
+ ********************************************************************/
+
+int _CheckObstructionIntegrity(graphP theGraph, graphP origGraph)
+{
+    if (theGraph == NULL || origGraph == NULL)
+        return NOTOK;
+
+    if (_TestSubgraph(theGraph, origGraph) != TRUE)
+    {
+        return NOTOK;
+    }
+
+    if (theGraph->embedFlags == EMBEDFLAGS_PLANAR)
+        return _CheckKuratowskiSubgraphIntegrity(theGraph);
+
+    else if (theGraph->embedFlags == EMBEDFLAGS_OUTERPLANAR)
+        return _CheckOuterplanarObstructionIntegrity(theGraph);
+
+    return NOTOK;
+}
+
+/********************************************************************
+ _getImageVertices()
+
+ Count the number of vertices of each degree and find the locations of
+ the image vertices (also sometimes called the corners of the obstruction).
+ An image vertex is a vertex of degree three or higher because degree
+ 2 vertices are generally internal to the paths between the image
+ vertices.
+
+ The notable exception is K_{2,3}, an obstruction to outerplanarity.
+ This routine does not know the obstruction it is looking for, so the
+ caller must decide whether there are any degree 2 vertices that should
+ be added to imageVerts.
+
+ Return NOTOK if any vertex of degree 1 or higher than the max is found
+        NOTOK if more than the max number of image vertices is found.
+        Return OK otherwise.
+ ********************************************************************/
+
+int _getImageVertices(graphP theGraph, int *degrees, int maxDegree,
+                      int *imageVerts, int maxNumImageVerts)
+{
+    int K, v, imageVertPos, degree;
+
+    for (degree = 0; degree <= maxDegree; degree++)
+        degrees[degree] = 0;
+
+    for (K = 0; K < maxNumImageVerts; K++)
+        imageVerts[K] = NIL;
+
+    imageVertPos = 0;
+
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+    {
+        degree = gp_GetVertexDegree(theGraph, v);
+        if (degree == 1)
+            return NOTOK;
+        if (degree > maxDegree)
+            return NOTOK;
+
+        degrees[degree]++;
+
+        if (imageVertPos < maxNumImageVerts && degree > 2)
+            imageVerts[imageVertPos++] = v;
+        else if (degree > 2)
+            return NOTOK;
+    }
+
+    return OK;
+}
+
+/********************************************************************
+ _TestForCompleteGraphObstruction()
+
+ theGraph - the graph to test
+ numVerts - the number of image vertices (corners) of the complete
+            graph homeomorph being tested for (e.g. 5 for a K5)
+ degrees -  array of counts of the number of vertices of each degree
+            given by the array index.  Only valid up to numVerts-1
+ imageVerts - the vertices of degree numVerts-1
+
+ This routine tests whether theGraph is a K_{numVerts} homeomorph for
+ numVerts >= 4.
+
+ returns FALSE if numVerts < 4,
+               if theGraph has other than numVerts image vertices
+               if theGraph contains other than degree 2 vertices plus
+                  the image vertices
+               if any pair of image vertices lacks a connecting path
+               if any degree two vertices are not in the connecting paths
+         TRUE  otherwise
+ ********************************************************************/
+
+int _TestForCompleteGraphObstruction(graphP theGraph, int numVerts,
+                                     int *degrees, int *imageVerts)
+{
+    int v, w;
+
+    // We need to make sure we have numVerts vertices of degree numVerts-1
+    // For example, if numVerts==5, then we're looking for a K5, so we
+    // need to have degrees[4] == 5 (5 vertices of degree 4)
+    if (degrees[numVerts - 1] != numVerts)
+        return FALSE;
+
+    // All vertices need to be degree 0, degree 2 or degree numVerts-1
+    if (degrees[0] + degrees[2] + degrees[numVerts - 1] != theGraph->N)
+        return FALSE;
+
+    // We clear all the vertex visited flags
+    _ClearVertexVisitedFlags(theGraph, FALSE);
+
+    // For each pair of image vertices, we test that there is a path
+    // between the two vertices.  If so, the visited flags of the
+    // internal vertices along the path are marked
+    //
+    for (v = 0; v < numVerts; v++)
+        for (w = 0; w < numVerts; w++)
+            if (v != w)
+                if (_TestPath(theGraph, imageVerts[v],
+                              imageVerts[w]) != TRUE)
+                    return FALSE;
+
+    // The visited flags should have marked only degree two vertices,
+    // so for every marked vertex, we subtract one from the count of
+    // the degree two vertices.
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+        if (gp_GetVertexVisited(theGraph, v))
+            degrees[2]--;
+
+    /* If every degree 2 vertex is used in a path between image
+        vertices, then there are no extra pieces of the graph
+        in theGraph.  Specifically, the prior tests identify
+        a K_5 and ensure that nothing else could exist in the
+        graph except extra degree 2 vertices, which must be
+        joined in a cycle so that all are degree 2. */
+
+    return degrees[2] == 0 ? TRUE : FALSE;
+}
+
+/********************************************************************
+ _TestForK33GraphObstruction()
+
+ theGraph - the graph to test
+ degrees -  array of counts of the number of vertices of each degree
+            given by the array index.  Only valid up to numVerts-1
+ imageVerts - the degree 3 vertices of the K3,3 homeomorph
+
+ This routine tests whether theGraph is a K_{3,3} homeomorph.
+
+ returns TRUE if so, FALSE if not
+ ********************************************************************/
+
+int _TestForK33GraphObstruction(graphP theGraph, int *degrees, int *imageVerts)
+{
+    int v, K, imageVertPos, temp, success;
+
+    if (degrees[4] != 0)
+        return FALSE;
+
+    if (degrees[3] != 6)
+        return FALSE;
+
+    /* Partition the six image vertices into two sets of 3
+           (or report failure) */
+
+    for (imageVertPos = 3; imageVertPos < 6; imageVertPos++)
+    {
+        K = 0;
+        success = FALSE;
+        do
+        {
+            if (_TestPath(theGraph, imageVerts[imageVertPos], imageVerts[0]) == TRUE)
+            {
+                success = TRUE;
+                break;
+            }
+
+            K++;
+            temp = imageVerts[K];
+            imageVerts[K] = imageVerts[imageVertPos];
+            imageVerts[imageVertPos] = temp;
+        } while (K < 3);
+
+        if (!success)
+            return FALSE;
+    }
+
+    /* Now test the paths between each of the first three vertices and
+           each of the last three vertices */
+
+    _ClearVertexVisitedFlags(theGraph, FALSE);
+
+    for (imageVertPos = 0; imageVertPos < 3; imageVertPos++)
+        for (K = 3; K < 6; K++)
+            if (_TestPath(theGraph, imageVerts[imageVertPos],
+                          imageVerts[K]) != TRUE)
+                return FALSE;
+
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+        if (gp_GetVertexVisited(theGraph, v))
+            degrees[2]--;
+
+    /* If every degree 2 vertex is used in a path between image
+           vertices, then there are no extra pieces of the graph
+           in theGraph.  Specifically, the prior tests identify
+           a K_{3,3} and ensure that nothing else could exist in the
+           graph except extra degree 2 vertices, which must be
+           joined in a cycle so that all are degree 2. */
+
+    return degrees[2] == 0 ? TRUE : FALSE;
+}
+
+/********************************************************************
+ _CheckKuratowskiSubgraphIntegrity()
+
+ This function checks whether theGraph received as input contains
+ either a K_5 or K_{3,3} homeomorph.
+
+ RETURNS:   OK if theGraph contains a K_5 or K_{3,3} homeomorph,
+            NOTOK otherwise
+
+ To be a K_5 homeomorph, there must be exactly 5 vertices of degree 4,
+ which are called 'image' vertices, and all other vertices must be
+ either degree 2 or degree 0. Furthermore, each of the image vertices
+ must be able to reach all of the other image vertices by a single edge
+ or a path of degree two vertices.
+
+ To be a K_{3,3} homeomorph, there must be exactly 6 vertices of degree 3,
+ which are called 'image' vertices, and all other vertices must be either
+ degree 2 or degree 0.  Furthermore, the image vertices must be connected
+ by edges or paths of degree two vertices in the manner suggested by
+ a K_{3,3}.  To test this, we select an image vertex U, and determine
+ three image vertices X, Y and Z reachable from U by single edges or
+ paths of degree 2 vertices.  Then, we check that the two remaining image
+ vertices, V and W, can also reach X, Y and Z by single edges or paths of
+ degree 2 vertices.
+
+ It is not necessary to check that the paths between the image vertices
+ are distinct since if the paths had a common vertex, then the common
+ vertex would not be degree 2.
+ ********************************************************************/
+
+int _CheckKuratowskiSubgraphIntegrity(graphP theGraph)
+{
+    int degrees[5], imageVerts[6];
+
+    if (_getImageVertices(theGraph, degrees, 4, imageVerts, 6) != OK)
+        return NOTOK;
+
+    if (_TestForCompleteGraphObstruction(theGraph, 5, degrees, imageVerts) == TRUE)
+    {
+        return OK;
+    }
+
+    if (_TestForK33GraphObstruction(theGraph, degrees, imageVerts) == TRUE)
+    {
+        return OK;
+    }
+
+    return NOTOK;
+}
+
+/********************************************************************
+ _TestForK23GraphObstruction()
+
+ theGraph - the graph to test
+ degrees -  array of counts of the number of vertices of each degree
+            given by the array index.  Only valid up to numVerts-1
+ imageVerts - the degree 3 vertices of the K2,3 homeomorph
+
+ This routine tests whether theGraph is a K_{2,3} homeomorph.
+ This routine operates over the results of _getImageVertices()
+
+ returns TRUE if so, FALSE if not
+ ********************************************************************/
+
+int _TestForK23GraphObstruction(graphP theGraph, int *degrees, int *imageVerts)
+{
+    int v, e, imageVertPos;
+
+    // This function operates over the imageVerts results produced by
+    // getImageVertices, which only finds vertices of degree 3 or higher.
+    // So, for a K2,3, there must be exactly two degree 3 vertices and
+    // no degree 4 vertices.
+    if (degrees[3] != 2)
+        return FALSE;
+
+    // For K_{2,3}, the three vertices of degree 2 were not
+    // detected as image vertices because degree 2 vertices
+    // are indistinguishable from the internal path vertices
+    // between the image vertices.  So, here we acknowledge
+    // that more image vertices need to be selected.
+    imageVertPos = 2;
+
+    // Assign the remaining three image vertices to be the
+    // neighbors of the first degree 3 image vertex.
+    // Ensure that each is distinct from the second
+    // degree 3 image vertex. This must be the case because
+    // the two degree 3 image vertices are in the same partition
+    // and hence must not be adjacent.
+
+    e = gp_GetFirstArc(theGraph, imageVerts[0]);
+    while (gp_IsArc(e))
+    {
+        imageVerts[imageVertPos] = gp_GetNeighbor(theGraph, e);
+        if (imageVerts[imageVertPos] == imageVerts[1])
+            return FALSE;
+        imageVertPos++;
+        e = gp_GetNextArc(theGraph, e);
+    }
+
+    /* The paths from imageVerts[0] to each of the new degree 2
+         image vertices are the edges we just traversed.
+         Now test the paths between each of the degree 2 image
+         vertices and imageVerts[1]. */
+
+    _ClearVertexVisitedFlags(theGraph, FALSE);
+
+    for (imageVertPos = 2; imageVertPos < 5; imageVertPos++)
+    {
+        if (_TestPath(theGraph, imageVerts[imageVertPos],
+                      imageVerts[1]) != TRUE)
+            return FALSE;
+
+        gp_SetVertexVisited(theGraph, imageVerts[imageVertPos]);
+    }
+
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+        if (gp_GetVertexVisited(theGraph, v))
+            degrees[2]--;
+
+    /* If every degree 2 vertex is used in a path between the
+         two degree 3 image vertices, then there are no extra
+         pieces of the graph in theGraph.  Specifically, the
+         prior tests identify a K_{2,3} and ensure that nothing
+         else could exist in the graph... except extra degree 2
+         vertices joined in a cycle. We return NOTOK in that case. */
+
+    return degrees[2] == 0 ? TRUE : FALSE;
+}
+
+/********************************************************************
+ _CheckOuterplanarObstructionIntegrity()
+
+ This function checks whether theGraph received as input contains
+ either a K_4 or K_{2,3} homeomorph.
+
+ RETURNS:   OK if theGraph contains a K_4 or K_{2,3} homeomorph,
+            NOTOK otherwise
+
+ To be a K_4 homeomorph, there must be exactly 4 vertices of degree 3,
+ which are called 'image' vertices, and all other vertices must be
+ either degree 2 or degree 0. Furthermore, each of the image vertices
+ must be able to reach all of the other image vertices by a single edge
+ or a path of degree two vertices.
+
+ To be a K_{2,3} homeomorph, there must be exactly 2 vertices of degree 3.
+ All other vertices must be degree 2.  Furthermore, the two degree 3
+ vertices must have three internally disjoint paths connecting them,
+ and each path must contain at least two edges (i.e. at least one internal
+ vertex).  The two degree 3 vertices are image vertices, and an internal
+ vertex from each of the three paths contributes the remaining three
+ image vertices.
+
+ It is not necessary to check that the paths between the degree three
+ vertices are distinct since if the paths had a common vertex, then the
+ common vertex would not be degree 2.
+ ********************************************************************/
+
+int _CheckOuterplanarObstructionIntegrity(graphP theGraph)
+{
+    int degrees[4], imageVerts[5];
+
+    if (_getImageVertices(theGraph, degrees, 3, imageVerts, 5) != OK)
+        return NOTOK;
+
+    if (_TestForCompleteGraphObstruction(theGraph, 4, degrees, imageVerts) == TRUE)
+    {
+        return OK;
+    }
+
+    if (_TestForK23GraphObstruction(theGraph, degrees, imageVerts) == TRUE)
+    {
+        return OK;
+    }
+
+    /* We get here only if we failed to recognize an outerplanarity
+        obstruction, so we return failure */
+
+    return NOTOK;
+}
+
+/********************************************************************
+ _TestPath()
+
+ This function determines whether there exists a path of degree two
+ vertices between two given vertices.  The function marks each
+ degree two vertex as visited.  It returns TRUE if it finds the
+ path and FALSE otherwise.
+ ********************************************************************/
+
+int _TestPath(graphP theGraph, int U, int V)
+{
+    int e = gp_GetFirstArc(theGraph, U);
+
+    while (gp_IsArc(e))
+    {
+        if (_TryPath(theGraph, e, V) == OK)
+        {
+            _MarkPath(theGraph, e);
+            return TRUE;
+        }
+
+        e = gp_GetNextArc(theGraph, e);
+    }
+
+    return FALSE;
+}
+
+/********************************************************************
+ _TryPath()
+
+ This function seeks a given path to a vertex V starting with a
+ given edge out of a starting vertex U.  The path is allowed to
+ contain zero or more degree two vertices, but we stop as soon as
+ a vertex of degree higher than two is encountered.
+ The function returns boolean true if that vertex is V, and
+ boolean false otherwise.
+ ********************************************************************/
+
+int _TryPath(graphP theGraph, int e, int V)
+{
+    int eTwin, nextVertex;
+
+    nextVertex = gp_GetNeighbor(theGraph, e);
+
+    // while nextVertex is strictly degree 2
+    while (gp_IsArc(gp_GetFirstArc(theGraph, nextVertex)) &&
+           gp_IsArc(gp_GetLastArc(theGraph, nextVertex)) &&
+           gp_GetNextArc(theGraph, gp_GetFirstArc(theGraph, nextVertex)) == gp_GetLastArc(theGraph, nextVertex))
+    {
+        eTwin = gp_GetTwinArc(theGraph, e);
+        e = gp_GetFirstArc(theGraph, nextVertex);
+        if (e == eTwin)
+            e = gp_GetLastArc(theGraph, nextVertex);
+
+        nextVertex = gp_GetNeighbor(theGraph, e);
+    }
+
+    return nextVertex == V ? TRUE : FALSE;
+}
+
+/********************************************************************
+ _MarkPath()
+
+ This function sets the visitation flag on all degree two vertices
+ along a path to a vertex V that starts with a given edge out of
+ a starting vertex U.
+ ********************************************************************/
+
+void _MarkPath(graphP theGraph, int e)
+{
+    int eTwin, nextVertex;
+
+    nextVertex = gp_GetNeighbor(theGraph, e);
+    // while nextVertex is strictly degree 2
+    while (gp_IsArc(gp_GetFirstArc(theGraph, nextVertex)) &&
+           gp_IsArc(gp_GetLastArc(theGraph, nextVertex)) &&
+           gp_GetNextArc(theGraph, gp_GetFirstArc(theGraph, nextVertex)) == gp_GetLastArc(theGraph, nextVertex))
+    {
+        gp_SetVertexVisited(theGraph, nextVertex);
+
+        eTwin = gp_GetTwinArc(theGraph, e);
+        e = gp_GetFirstArc(theGraph, nextVertex);
+        if (e == eTwin)
+            e = gp_GetLastArc(theGraph, nextVertex);
+
+        nextVertex = gp_GetNeighbor(theGraph, e);
+    }
+}
+
+/********************************************************************
+ _TestSubgraph()
+ Checks whether theSubgraph is in fact a subgraph of theGraph.
+ For each vertex v in graph G and subgraph H, we iterate the adjacency
+ list of H(v) and, for each neighbor w, we mark G(w).  Then, we
+ iterate the adjacency list of G(v) and unmark each neighbor.  Then,
+ we iterate the adjacency list of H(v) again to ensure that every
+ neighbor w was unmarked.  If there exists a marked neighbor, then
+ H(v) contains an incident edge that is not incident to G(v).
+
+ Returns TRUE if theSubgraph contains only edges from theGraph,
+         FALSE otherwise
+ ********************************************************************/
+
+int _TestSubgraph(graphP theSubgraph, graphP theGraph)
+{
+    int v, e, degreeCount;
+    int Result = TRUE;
+    int invokeSortOnGraph = FALSE;
+    int invokeSortOnSubgraph = FALSE;
+
+    // A subgraph on the same vertices has the same order
+    if (theSubgraph->N != theGraph->N)
+        return FALSE;
+
+    // If the graph is not sorted by DFI, but the alleged subgraph is,
+    // then "unsort" the alleged subgraph so both have the same vertex order
+    if (!(theGraph->internalFlags & FLAGS_SORTEDBYDFI) &&
+        (theSubgraph->internalFlags & FLAGS_SORTEDBYDFI))
+    {
+        invokeSortOnSubgraph = TRUE;
+        gp_SortVertices(theSubgraph);
+    }
+
+    // If the graph is not sorted by DFI, but the alleged subgraph is,
+    // then "unsort" the alleged subgraph so both have the same vertex order
+    if (!(theSubgraph->internalFlags & FLAGS_SORTEDBYDFI) &&
+        (theGraph->internalFlags & FLAGS_SORTEDBYDFI))
+    {
+        invokeSortOnGraph = TRUE;
+        gp_SortVertices(theGraph);
+    }
+
+    /* We clear all visitation flags */
+
+    _ClearVertexVisitedFlags(theGraph, FALSE);
+
+    /* For each vertex... */
+    for (v = gp_GetFirstVertex(theSubgraph), degreeCount = 0; gp_VertexInRange(theSubgraph, v); v++)
+    {
+        /* For each neighbor w in the adjacency list of vertex v in the
+              subgraph, set the visited flag in w in the graph */
+
+        e = gp_GetFirstArc(theSubgraph, v);
+        while (gp_IsArc(e))
+        {
+            if (gp_IsNotVertex(gp_GetNeighbor(theSubgraph, e)))
+            {
+                Result = FALSE;
+                break;
+            }
+            degreeCount++;
+            gp_SetVertexVisited(theGraph, gp_GetNeighbor(theSubgraph, e));
+            e = gp_GetNextArc(theSubgraph, e);
+        }
+
+        if (Result != TRUE)
+            break;
+
+        /* For each neighbor w in the adjacency list of vertex v in the graph,
+              clear the visited flag in w in the graph */
+
+        e = gp_GetFirstArc(theGraph, v);
+        while (gp_IsArc(e))
+        {
+            if (gp_IsNotVertex(gp_GetNeighbor(theGraph, e)))
+            {
+                Result = FALSE;
+                break;
+            }
+            gp_ClearVertexVisited(theGraph, gp_GetNeighbor(theGraph, e));
+            e = gp_GetNextArc(theGraph, e);
+        }
+
+        if (Result != TRUE)
+            break;
+
+        /* For each neighbor w in the adjacency list of vertex v in the subgraph,
+           ensure that the visited flag in w was cleared (otherwise, the "subgraph"
+           would incorrectly contain an adjacency not contained in the ("super") graph) */
+
+        e = gp_GetFirstArc(theSubgraph, v);
+        while (gp_IsArc(e))
+        {
+            if (gp_GetVertexVisited(theGraph, gp_GetNeighbor(theSubgraph, e)))
+            {
+                Result = FALSE;
+                break;
+            }
+            e = gp_GetNextArc(theSubgraph, e);
+        }
+
+        if (Result != TRUE)
+            break;
+    }
+
+    // Restore the DFI sort order of either graph if it had to be reordered at the start
+    if (invokeSortOnSubgraph)
+        gp_SortVertices(theSubgraph);
+    if (invokeSortOnGraph)
+        gp_SortVertices(theGraph);
+
+    // Assuming theSubgraph is a subgraph, we also do an extra integrity check to ensure
+    // proper edge array utilization
+    if (Result == TRUE)
+    {
+        // If the edge count is wrong, we fail the subgraph test in a way that invokes
+        // the name NOTOK so that in debug mode there is more trace on the failure.
+        if (degreeCount != 2 * theSubgraph->M)
+            Result = NOTOK == FALSE ? NOTOK : FALSE;
+    }
+
+    return Result;
+}
diff --git a/c/planarityApp/planarityUtils.c b/c/planarityApp/planarityUtils.c
index 0379925..33788f6 100644
--- a/c/planarityApp/planarityUtils.c
+++ b/c/planarityApp/planarityUtils.c
@@ -1,648 +1,648 @@
-/*
-Copyright (c) 1997-2022, John M. Boyer
-All rights reserved.
-See the LICENSE.TXT file for licensing information.
-*/
-
-#include "planarity.h"
-
-/****************************************************************************
- Configuration
- ****************************************************************************/
-
-char Mode = 'r',
-	 OrigOut = 'n',
-	 EmbeddableOut = 'n',
-	 ObstructedOut = 'n',
-	 AdjListsForEmbeddingsOut = 'n';
-
-void Reconfigure(void)
-{
-	fflush(stdin);
-
-	Prompt("\nDo you want to \n"
-		   "  Randomly generate graphs (r),\n"
-		   "  Specify a graph (s),\n"
-		   "  Randomly generate a maximal planar graph (m), or\n"
-		   "  Randomly generate a non-planar graph (n)?");
-	scanf(" %c", &Mode);
-
-	Mode = tolower(Mode);
-	if (!strchr("rsmn", Mode))
-		Mode = 's';
-
-	if (Mode == 'r')
-	{
-		Message("\nNOTE: The directories for the graphs you want must exist.\n\n");
-
-		Prompt("Do you want original graphs in directory 'random' (last 10 max)?");
-		scanf(" %c", &OrigOut);
-
-		Prompt("Do you want adj. matrix of embeddable graphs in directory 'embedded' (last 10 max))?");
-		scanf(" %c", &EmbeddableOut);
-
-		Prompt("Do you want adj. matrix of obstructed graphs in directory 'obstructed' (last 10 max)?");
-		scanf(" %c", &ObstructedOut);
-
-		Prompt("Do you want adjacency list format of embeddings in directory 'adjlist' (last 10 max)?");
-		scanf(" %c", &AdjListsForEmbeddingsOut);
-	}
-
-	FlushConsole(stdout);
-}
-
-void FlushConsole(FILE *f)
-{
-	fflush(f);
-}
-
-void Prompt(char *message)
-{
-	Message(message);
-	FlushConsole(stdout);
-}
-
-/****************************************************************************
- ****************************************************************************/
-
-void SaveAsciiGraph(graphP theGraph, char *filename)
-{
-	int e, EsizeOccupied, vertexLabelFix;
-	FILE *outfile = fopen(filename, WRITETEXT);
-
-	// The filename may specify a directory that doesn't exist
-	if (outfile == NULL)
-	{
-		char *messageFormat = "Failed to write to \"%.*s\"\nMake the directory if not present\n";
-		char messageContents[MAXLINE + 1];
-		int charsAvailForStrToInclude = (int)(MAXLINE - strlen(messageFormat));
-		sprintf(messageContents, messageFormat, charsAvailForStrToInclude, filename);
-		ErrorMessage(messageContents);
-		return;
-	}
-
-	// If filename includes path elements, remove them before writing the file's name to the file
-	if (strrchr(filename, FILE_DELIMITER))
-		filename = strrchr(filename, FILE_DELIMITER) + 1;
-
-	fprintf(outfile, "%s\n", filename);
-
-	// This edge list file format uses 1-based vertex numbering, and the current code
-	// internally uses 1-based indexing by default, so this vertex label 'fix' adds zero
-	// But earlier code used 0-based indexing and added one on output, so we replicate
-	// that behavior in case the current code has been compiled with zero-based indexing.
-	vertexLabelFix = 1 - gp_GetFirstVertex(theGraph);
-
-	// Iterate over the edges of the graph
-	EsizeOccupied = gp_EdgeInUseIndexBound(theGraph);
-	for (e = gp_GetFirstEdge(theGraph); e < EsizeOccupied; e += 2)
-	{
-		// Only output edges that haven't been deleted (i.e. skip the edge holes)
-		if (gp_EdgeInUse(theGraph, e))
-		{
-			fprintf(outfile, "%d %d\n",
-					gp_GetNeighbor(theGraph, e) + vertexLabelFix,
-					gp_GetNeighbor(theGraph, e + 1) + vertexLabelFix);
-		}
-	}
-
-	// Since vertex numbers are at least 1, this indicates the end of the edge list
-	fprintf(outfile, "0 0\n");
-
-	fclose(outfile);
-}
-
-/****************************************************************************
- ReadTextFileIntoString()
- Reads the file content indicated by infileName using a single fread(), and
- returns the result in an allocated string. The caller needs to free() the
- returned string when done with it.
- Returns NULL on error, or an allocated string containing the file content.
- ****************************************************************************/
-
-char *ReadTextFileIntoString(char *infileName)
-{
-	FILE *infile = NULL;
-	char *inputString = NULL;
-
-	if ((infile = fopen(infileName, "r")) == NULL)
-		ErrorMessage("fopen() failed.\n");
-	else
-	{
-		long filePos = ftell(infile);
-		long fileSize;
-
-		fseek(infile, 0, SEEK_END);
-		fileSize = ftell(infile);
-		fseek(infile, filePos, SEEK_SET);
-
-		if ((inputString = (char *)malloc((fileSize + 1) * sizeof(char))) != NULL)
-		{
-			long bytesRead = fread((void *)inputString, 1, fileSize, infile);
-			inputString[bytesRead] = '\0';
-		}
-
-		fclose(infile);
-	}
-
-	return inputString;
-}
-
-/****************************************************************************
- * TextFileMatchesString()
- *
- * Compares the text file content from the file named 'theFilename' with
- * the content of 'theString'.
- *
- * Textual equality is measured as content equality except for suppressing
- * differences between CRLF and LF-only line delimiters.
- *
- * Returns TRUE if the contents are textually equal, FALSE otherwise
- ****************************************************************************/
-
-int TextFileMatchesString(char *theFilename, char *theString)
-{
-	FILE *infile = NULL;
-	int Result = TRUE;
-
-	if (theFilename != NULL)
-		infile = fopen(theFilename, "r");
-
-	if (infile == NULL)
-		Result = FALSE;
-	else
-	{
-		int c1 = 0, c2 = 0, stringIndex = 0;
-
-		// Read the input file to the end
-		while ((c1 = fgetc(infile)) != EOF)
-		{
-			// Want to suppress distinction between lines ending with CRLF versus LF
-			// by looking at only LF characters in the file
-			if (c1 == '\r')
-				continue;
-
-			// Since c1 now has a non-CR, non-EOF from the input file,  we now also
-			// get a character from the string, except ignoring CRs again
-			while ((c2 = (unsigned char)theString[stringIndex++]) == '\r')
-				;
-
-			// If c1 doesn't equal c2 (whether c2 is a null terminator or a different character)
-			// then the file content doesn't match the string
-			if (c1 != c2 || c2 == '\0')
-			{
-				Result = FALSE;
-				break;
-			}
-		}
-
-		// If the outer while loop got to the end of the file
-		if (c1 == EOF)
-		{
-			// Then get another character from the string, once again suppressing CRs, and then...
-			while ((c2 = (unsigned char)theString[stringIndex++]) == '\r')
-				;
-			// Test whether or not the second file also ends, same as the first.
-			if (c2 != '\0')
-				Result = FALSE;
-		}
-	}
-
-	if (infile != NULL)
-		fclose(infile);
-	return Result;
-}
-
-/****************************************************************************
- ****************************************************************************/
-
-int TextFilesEqual(char *file1Name, char *file2Name)
-{
-	FILE *infile1 = NULL, *infile2 = NULL;
-	int Result = TRUE;
-
-	infile1 = fopen(file1Name, "r");
-	infile2 = fopen(file2Name, "r");
-
-	if (infile1 == NULL || infile2 == NULL)
-		Result = FALSE;
-	else
-	{
-		int c1 = 0, c2 = 0;
-
-		// Read the first file to the end
-		while ((c1 = fgetc(infile1)) != EOF)
-		{
-			// Want to suppress distinction between lines ending with CRLF versus LF
-			if (c1 == '\r')
-				continue;
-
-			// Get a char from the second file, except suppress CR again
-			while ((c2 = fgetc(infile2)) == '\r')
-				;
-
-			// If we got a char from the first file, but not from the second
-			// then the second file is shorter, so files are not equal
-			if (c2 == EOF)
-			{
-				Result = FALSE;
-				break;
-			}
-
-			// If we got a char from second file, but not equal to char from
-			// first file, then files are not equal
-			if (c1 != c2)
-			{
-				Result = FALSE;
-				break;
-			}
-		}
-
-		// If we got to the end of the first file without breaking the loop...
-		if (c1 == EOF)
-		{
-			// Then, once again, suppress CRs first, and then...
-			while ((c2 = fgetc(infile2)) == '\r')
-				;
-			// Test whether or not the second file also ends, same as the first.
-			if (c2 != EOF)
-				Result = FALSE;
-		}
-	}
-
-	if (infile1 != NULL)
-		fclose(infile1);
-	if (infile2 != NULL)
-		fclose(infile2);
-	return Result;
-}
-
-/****************************************************************************
- ****************************************************************************/
-
-int BinaryFilesEqual(char *file1Name, char *file2Name)
-{
-	FILE *infile1 = NULL, *infile2 = NULL;
-	int Result = TRUE;
-
-	infile1 = fopen(file1Name, "r");
-	infile2 = fopen(file2Name, "r");
-
-	if (infile1 == NULL || infile2 == NULL)
-		Result = FALSE;
-	else
-	{
-		int c1 = 0, c2 = 0;
-
-		// Read the first file to the end
-		while ((c1 = fgetc(infile1)) != EOF)
-		{
-			// If we got a char from the first file, but not from the second
-			// then the second file is shorter, so files are not equal
-			if ((c2 = fgetc(infile2)) == EOF)
-			{
-				Result = FALSE;
-				break;
-			}
-
-			// If we got a char from second file, but not equal to char from
-			// first file, then files are not equal
-			if (c1 != c2)
-			{
-				Result = FALSE;
-				break;
-			}
-		}
-
-		// If we got to the end of the first file without breaking the loop...
-		if (c1 == EOF)
-		{
-			// Then attempt to read from the second file to ensure it also ends.
-			if (fgetc(infile2) != EOF)
-				Result = FALSE;
-		}
-	}
-
-	if (infile1 != NULL)
-		fclose(infile1);
-	if (infile2 != NULL)
-		fclose(infile2);
-	return Result;
-}
-
-/****************************************************************************
- ALGORITHM FLAGS/SPECIFIERS
-****************************************************************************/
-
-char *GetAlgorithmFlags(void)
-{
-	return "C = command (algorithm implementation to run)\n"
-		   "    -p = Planar embedding and Kuratowski subgraph isolation\n"
-		   "    -d = Planar graph drawing by visibility representation\n"
-		   "    -o = Outerplanar embedding and obstruction isolation\n"
-		   "    -2 = Search for subgraph homeomorphic to K_{2,3}\n"
-		   "    -3 = Search for subgraph homeomorphic to K_{3,3}\n"
-		   "    -4 = Search for subgraph homeomorphic to K_4\n"
-		   "\n";
-}
-
-char *GetAlgorithmSpecifiers(void)
-{
-	return "P. Planar embedding and Kuratowski subgraph isolation\n"
-		   "D. Planar graph drawing by visibility representation\n"
-		   "O. Outerplanar embedding and obstruction isolation\n"
-		   "2. Search for subgraph homeomorphic to K_{2,3}\n"
-		   "3. Search for subgraph homeomorphic to K_{3,3}\n"
-		   "4. Search for subgraph homeomorphic to K_4\n";
-}
-
-char *GetAlgorithmChoices(void)
-{
-	return "pdo234";
-}
-
-/****************************************************************************
- ****************************************************************************/
-
-int GetEmbedFlags(char command)
-{
-	int embedFlags = 0;
-
-	switch (command)
-	{
-	case 'o':
-		embedFlags = EMBEDFLAGS_OUTERPLANAR;
-		break;
-	case 'p':
-		embedFlags = EMBEDFLAGS_PLANAR;
-		break;
-	case 'd':
-		embedFlags = EMBEDFLAGS_DRAWPLANAR;
-		break;
-	case '2':
-		embedFlags = EMBEDFLAGS_SEARCHFORK23;
-		break;
-	case '3':
-		embedFlags = EMBEDFLAGS_SEARCHFORK33;
-		break;
-	case '4':
-		embedFlags = EMBEDFLAGS_SEARCHFORK4;
-		break;
-	}
-
-	return embedFlags;
-}
-
-/****************************************************************************
- ****************************************************************************/
-
-char *GetAlgorithmName(char command)
-{
-	char *algorithmName = "UnsupportedAlgorithm";
-
-	switch (command)
-	{
-	case 'p':
-		algorithmName = "PlanarEmbed";
-		break;
-	case 'd':
-		algorithmName = DRAWPLANAR_NAME;
-		break;
-	case 'o':
-		algorithmName = "OuterplanarEmbed";
-		break;
-	case '2':
-		algorithmName = K23SEARCH_NAME;
-		break;
-	case '3':
-		algorithmName = K33SEARCH_NAME;
-		break;
-	case '4':
-		algorithmName = K4SEARCH_NAME;
-		break;
-	}
-
-	return algorithmName;
-}
-
-/****************************************************************************
- ****************************************************************************/
-
-char *GetTransformationName(char command)
-{
-	char *transformationName = "UnsupportedTransformation";
-
-	switch (command)
-	{
-	case 'g':
-		transformationName = "G6";
-		break;
-	case 'a':
-		transformationName = "AdjList";
-		break;
-	case 'm':
-		transformationName = "AdjMat";
-		break;
-	}
-
-	return transformationName;
-}
-
-char *GetSupportedOutputChoices(void)
-{
-	return "G. G6 format\n"
-		   "A. Adjacency List format\n"
-		   "M. Adjacency Matrix format\n";
-}
-
-char *GetSupportedOutputFormats(void)
-{
-	return "gam";
-}
-
-/****************************************************************************
- ****************************************************************************/
-
-char *GetBaseName(int baseFlag)
-{
-	char *transformationName = baseFlag ? "1-based" : "0-based";
-
-	return transformationName;
-}
-
-/****************************************************************************
- ****************************************************************************/
-
-void AttachAlgorithm(graphP theGraph, char command)
-{
-	switch (command)
-	{
-	case 'd':
-		gp_AttachDrawPlanar(theGraph);
-		break;
-	case '2':
-		gp_AttachK23Search(theGraph);
-		break;
-	case '3':
-		gp_AttachK33Search(theGraph);
-		break;
-	case '4':
-		gp_AttachK4Search(theGraph);
-		break;
-	}
-}
-
-/****************************************************************************
- A string used to construct input and output filenames.
-
- The SUFFIXMAXLENGTH is 32 to accommodate ".out.txt" + ".render.txt" + ".test.txt"
- ****************************************************************************/
-
-#define FILENAMEMAXLENGTH 128
-#define ALGORITHMNAMEMAXLENGTH 32
-#define SUFFIXMAXLENGTH 32
-
-char theFileName[FILENAMEMAXLENGTH + 1 + ALGORITHMNAMEMAXLENGTH + 1 + SUFFIXMAXLENGTH + 1];
-
-/****************************************************************************
- ConstructInputFilename()
- Returns a string not owned by the caller (do not free string).
- String contains infileName content if infileName is non-NULL.
- If infileName is NULL, then the user is asked to supply a name.
- Returns NULL on error, or a non-NULL string on success.
- ****************************************************************************/
-
-char *ConstructInputFilename(char *infileName)
-{
-	if (infileName == NULL)
-	{
-		Prompt("Enter graph file name: ");
-		fflush(stdin);
-		scanf(" %s", theFileName);
-
-		if (!strchr(theFileName, '.'))
-			strcat(theFileName, ".txt");
-	}
-	else
-	{
-		if (strlen(infileName) > FILENAMEMAXLENGTH)
-		{
-			ErrorMessage("Filename is too long");
-			return NULL;
-		}
-		strcpy(theFileName, infileName);
-	}
-
-	return theFileName;
-}
-
-/****************************************************************************
- ConstructPrimaryOutputFilename()
- Returns a string not owned by the caller (do not free string).
- Reuses the same memory space as ConstructInputFilename().
- If outfileName is non-NULL, then the result string contains its content.
- If outfileName is NULL, then the infileName and the command's algorithm name
- are used to construct a string.
- Returns non-NULL string
- ****************************************************************************/
-
-char *ConstructPrimaryOutputFilename(char *infileName, char *outfileName, char command)
-{
-	char *algorithmName = GetAlgorithmName(command);
-
-	if (outfileName == NULL)
-	{
-		// The output filename is based on the input filename
-		if (theFileName != infileName)
-			strcpy(theFileName, infileName);
-
-		// If the primary output filename has not been given, then we use
-		// the input filename + the algorithm name + a simple suffix
-		if (strlen(algorithmName) <= ALGORITHMNAMEMAXLENGTH)
-		{
-			strcat(theFileName, ".");
-			strcat(theFileName, algorithmName);
-		}
-		else
-			ErrorMessage("Algorithm Name is too long, so it will not be used in output filename.");
-
-		strcat(theFileName, ".out.txt");
-	}
-	else
-	{
-		if (strlen(outfileName) > FILENAMEMAXLENGTH)
-		{
-			// The output filename is based on the input filename
-			if (theFileName != infileName)
-				strcpy(theFileName, infileName);
-
-			if (strlen(algorithmName) <= ALGORITHMNAMEMAXLENGTH)
-			{
-				strcat(theFileName, ".");
-				strcat(theFileName, algorithmName);
-			}
-			strcat(theFileName, ".out.txt");
-			char *messageFormat = "Outfile filename is too long. Result placed in \"%.*s\"";
-			char messageContents[MAXLINE + 1];
-			int charsAvailForStrToInclude = (int)(MAXLINE - strlen(messageFormat));
-			sprintf(messageContents, messageFormat, charsAvailForStrToInclude, theFileName);
-			ErrorMessage(messageContents);
-		}
-		else
-		{
-			if (theFileName != outfileName)
-				strcpy(theFileName, outfileName);
-		}
-	}
-
-	return theFileName;
-}
-
-/****************************************************************************
- ConstructTransformationExpectedResultFilename()
- Returns a string whose ownership will be transferred to the caller (must free string).
- If outfileName is non-NULL, then the result string contains its content.
- If outfileName is NULL, then the infileName, the command's algorithm name, and
- whether or not this output file correspond to the actual (0) or expected (1)
- output file from testing are used to construct a string.
- Returns non-NULL string
- ****************************************************************************/
-
-int ConstructTransformationExpectedResultFilename(char *infileName, char **outfileName, char command, int baseFlag)
-{
-	int Result = OK;
-	char *baseName = GetBaseName(baseFlag);
-	char *transformationName = GetTransformationName(command);
-	int infileNameLen = -1;
-
-	if (infileName == NULL || (infileNameLen = strlen(infileName)) < 1)
-	{
-		ErrorMessage("Cannot construct transformation output filename for empty infileName.\n");
-		return NOTOK;
-	}
-
-	if ((*outfileName) == NULL)
-	{
-		(*outfileName) = (char *)calloc(infileNameLen + 1 + strlen(baseName) + 1 + strlen(transformationName) + ((command == 'g') ? strlen(".out.g6") : strlen(".out.txt")) + 1, sizeof(char));
-
-		if ((*outfileName) == NULL)
-		{
-			ErrorMessage("Unable to allocate memory for output filename.\n");
-			return NOTOK;
-		}
-
-		strcpy((*outfileName), infileName);
-		strcat((*outfileName), ".");
-		strcat((*outfileName), baseName);
-		strcat((*outfileName), ".");
-		strcat((*outfileName), transformationName);
-		strcat((*outfileName), command == 'g' ? ".out.g6" : ".out.txt");
-	}
-	else
-	{
-		ErrorMessage("outfileName already allocated.\n");
-		Result = NOTOK;
-	}
-
-	return Result;
-}
+/*
+Copyright (c) 1997-2022, John M. Boyer
+All rights reserved.
+See the LICENSE.TXT file for licensing information.
+*/
+
+#include "planarity.h"
+
+/****************************************************************************
+ Configuration
+ ****************************************************************************/
+
+char Mode = 'r',
+	 OrigOut = 'n',
+	 EmbeddableOut = 'n',
+	 ObstructedOut = 'n',
+	 AdjListsForEmbeddingsOut = 'n';
+
+void Reconfigure(void)
+{
+	fflush(stdin);
+
+	Prompt("\nDo you want to \n"
+		   "  Randomly generate graphs (r),\n"
+		   "  Specify a graph (s),\n"
+		   "  Randomly generate a maximal planar graph (m), or\n"
+		   "  Randomly generate a non-planar graph (n)?");
+	scanf(" %c", &Mode);
+
+	Mode = tolower(Mode);
+	if (!strchr("rsmn", Mode))
+		Mode = 's';
+
+	if (Mode == 'r')
+	{
+		Message("\nNOTE: The directories for the graphs you want must exist.\n\n");
+
+		Prompt("Do you want original graphs in directory 'random' (last 10 max)?");
+		scanf(" %c", &OrigOut);
+
+		Prompt("Do you want adj. matrix of embeddable graphs in directory 'embedded' (last 10 max))?");
+		scanf(" %c", &EmbeddableOut);
+
+		Prompt("Do you want adj. matrix of obstructed graphs in directory 'obstructed' (last 10 max)?");
+		scanf(" %c", &ObstructedOut);
+
+		Prompt("Do you want adjacency list format of embeddings in directory 'adjlist' (last 10 max)?");
+		scanf(" %c", &AdjListsForEmbeddingsOut);
+	}
+
+	FlushConsole(stdout);
+}
+
+void FlushConsole(FILE *f)
+{
+	fflush(f);
+}
+
+void Prompt(char *message)
+{
+	Message(message);
+	FlushConsole(stdout);
+}
+
+/****************************************************************************
+ ****************************************************************************/
+
+void SaveAsciiGraph(graphP theGraph, char *filename)
+{
+	int e, EsizeOccupied, vertexLabelFix;
+	FILE *outfile = fopen(filename, WRITETEXT);
+
+	// The filename may specify a directory that doesn't exist
+	if (outfile == NULL)
+	{
+		char *messageFormat = "Failed to write to \"%.*s\"\nMake the directory if not present\n";
+		char messageContents[MAXLINE + 1];
+		int charsAvailForStrToInclude = (int)(MAXLINE - strlen(messageFormat));
+		sprintf(messageContents, messageFormat, charsAvailForStrToInclude, filename);
+		ErrorMessage(messageContents);
+		return;
+	}
+
+	// If filename includes path elements, remove them before writing the file's name to the file
+	if (strrchr(filename, FILE_DELIMITER))
+		filename = strrchr(filename, FILE_DELIMITER) + 1;
+
+	fprintf(outfile, "%s\n", filename);
+
+	// This edge list file format uses 1-based vertex numbering, and the current code
+	// internally uses 1-based indexing by default, so this vertex label 'fix' adds zero
+	// But earlier code used 0-based indexing and added one on output, so we replicate
+	// that behavior in case the current code has been compiled with zero-based indexing.
+	vertexLabelFix = 1 - gp_GetFirstVertex(theGraph);
+
+	// Iterate over the edges of the graph
+	EsizeOccupied = gp_EdgeInUseIndexBound(theGraph);
+	for (e = gp_GetFirstEdge(theGraph); e < EsizeOccupied; e += 2)
+	{
+		// Only output edges that haven't been deleted (i.e. skip the edge holes)
+		if (gp_EdgeInUse(theGraph, e))
+		{
+			fprintf(outfile, "%d %d\n",
+					gp_GetNeighbor(theGraph, e) + vertexLabelFix,
+					gp_GetNeighbor(theGraph, e + 1) + vertexLabelFix);
+		}
+	}
+
+	// Since vertex numbers are at least 1, this indicates the end of the edge list
+	fprintf(outfile, "0 0\n");
+
+	fclose(outfile);
+}
+
+/****************************************************************************
+ ReadTextFileIntoString()
+ Reads the file content indicated by infileName using a single fread(), and
+ returns the result in an allocated string. The caller needs to free() the
+ returned string when done with it.
+ Returns NULL on error, or an allocated string containing the file content.
+ ****************************************************************************/
+
+char *ReadTextFileIntoString(char *infileName)
+{
+	FILE *infile = NULL;
+	char *inputString = NULL;
+
+	if ((infile = fopen(infileName, "r")) == NULL)
+		ErrorMessage("fopen() failed.\n");
+	else
+	{
+		long filePos = ftell(infile);
+		long fileSize;
+
+		fseek(infile, 0, SEEK_END);
+		fileSize = ftell(infile);
+		fseek(infile, filePos, SEEK_SET);
+
+		if ((inputString = (char *)malloc((fileSize + 1) * sizeof(char))) != NULL)
+		{
+			long bytesRead = fread((void *)inputString, 1, fileSize, infile);
+			inputString[bytesRead] = '\0';
+		}
+
+		fclose(infile);
+	}
+
+	return inputString;
+}
+
+/****************************************************************************
+ * TextFileMatchesString()
+ *
+ * Compares the text file content from the file named 'theFilename' with
+ * the content of 'theString'.
+ *
+ * Textual equality is measured as content equality except for suppressing
+ * differences between CRLF and LF-only line delimiters.
+ *
+ * Returns TRUE if the contents are textually equal, FALSE otherwise
+ ****************************************************************************/
+
+int TextFileMatchesString(char *theFilename, char *theString)
+{
+	FILE *infile = NULL;
+	int Result = TRUE;
+
+	if (theFilename != NULL)
+		infile = fopen(theFilename, "r");
+
+	if (infile == NULL)
+		Result = FALSE;
+	else
+	{
+		int c1 = 0, c2 = 0, stringIndex = 0;
+
+		// Read the input file to the end
+		while ((c1 = fgetc(infile)) != EOF)
+		{
+			// Want to suppress distinction between lines ending with CRLF versus LF
+			// by looking at only LF characters in the file
+			if (c1 == '\r')
+				continue;
+
+			// Since c1 now has a non-CR, non-EOF from the input file,  we now also
+			// get a character from the string, except ignoring CRs again
+			while ((c2 = (unsigned char)theString[stringIndex++]) == '\r')
+				;
+
+			// If c1 doesn't equal c2 (whether c2 is a null terminator or a different character)
+			// then the file content doesn't match the string
+			if (c1 != c2 || c2 == '\0')
+			{
+				Result = FALSE;
+				break;
+			}
+		}
+
+		// If the outer while loop got to the end of the file
+		if (c1 == EOF)
+		{
+			// Then get another character from the string, once again suppressing CRs, and then...
+			while ((c2 = (unsigned char)theString[stringIndex++]) == '\r')
+				;
+			// Test whether or not the second file also ends, same as the first.
+			if (c2 != '\0')
+				Result = FALSE;
+		}
+	}
+
+	if (infile != NULL)
+		fclose(infile);
+	return Result;
+}
+
+/****************************************************************************
+ ****************************************************************************/
+
+int TextFilesEqual(char *file1Name, char *file2Name)
+{
+	FILE *infile1 = NULL, *infile2 = NULL;
+	int Result = TRUE;
+
+	infile1 = fopen(file1Name, "r");
+	infile2 = fopen(file2Name, "r");
+
+	if (infile1 == NULL || infile2 == NULL)
+		Result = FALSE;
+	else
+	{
+		int c1 = 0, c2 = 0;
+
+		// Read the first file to the end
+		while ((c1 = fgetc(infile1)) != EOF)
+		{
+			// Want to suppress distinction between lines ending with CRLF versus LF
+			if (c1 == '\r')
+				continue;
+
+			// Get a char from the second file, except suppress CR again
+			while ((c2 = fgetc(infile2)) == '\r')
+				;
+
+			// If we got a char from the first file, but not from the second
+			// then the second file is shorter, so files are not equal
+			if (c2 == EOF)
+			{
+				Result = FALSE;
+				break;
+			}
+
+			// If we got a char from second file, but not equal to char from
+			// first file, then files are not equal
+			if (c1 != c2)
+			{
+				Result = FALSE;
+				break;
+			}
+		}
+
+		// If we got to the end of the first file without breaking the loop...
+		if (c1 == EOF)
+		{
+			// Then, once again, suppress CRs first, and then...
+			while ((c2 = fgetc(infile2)) == '\r')
+				;
+			// Test whether or not the second file also ends, same as the first.
+			if (c2 != EOF)
+				Result = FALSE;
+		}
+	}
+
+	if (infile1 != NULL)
+		fclose(infile1);
+	if (infile2 != NULL)
+		fclose(infile2);
+	return Result;
+}
+
+/****************************************************************************
+ ****************************************************************************/
+
+int BinaryFilesEqual(char *file1Name, char *file2Name)
+{
+	FILE *infile1 = NULL, *infile2 = NULL;
+	int Result = TRUE;
+
+	infile1 = fopen(file1Name, "r");
+	infile2 = fopen(file2Name, "r");
+
+	if (infile1 == NULL || infile2 == NULL)
+		Result = FALSE;
+	else
+	{
+		int c1 = 0, c2 = 0;
+
+		// Read the first file to the end
+		while ((c1 = fgetc(infile1)) != EOF)
+		{
+			// If we got a char from the first file, but not from the second
+			// then the second file is shorter, so files are not equal
+			if ((c2 = fgetc(infile2)) == EOF)
+			{
+				Result = FALSE;
+				break;
+			}
+
+			// If we got a char from second file, but not equal to char from
+			// first file, then files are not equal
+			if (c1 != c2)
+			{
+				Result = FALSE;
+				break;
+			}
+		}
+
+		// If we got to the end of the first file without breaking the loop...
+		if (c1 == EOF)
+		{
+			// Then attempt to read from the second file to ensure it also ends.
+			if (fgetc(infile2) != EOF)
+				Result = FALSE;
+		}
+	}
+
+	if (infile1 != NULL)
+		fclose(infile1);
+	if (infile2 != NULL)
+		fclose(infile2);
+	return Result;
+}
+
+/****************************************************************************
+ ALGORITHM FLAGS/SPECIFIERS
+****************************************************************************/
+
+char *GetAlgorithmFlags(void)
+{
+	return "C = command (algorithm implementation to run)\n"
+		   "    -p = Planar embedding and Kuratowski subgraph isolation\n"
+		   "    -d = Planar graph drawing by visibility representation\n"
+		   "    -o = Outerplanar embedding and obstruction isolation\n"
+		   "    -2 = Search for subgraph homeomorphic to K_{2,3}\n"
+		   "    -3 = Search for subgraph homeomorphic to K_{3,3}\n"
+		   "    -4 = Search for subgraph homeomorphic to K_4\n"
+		   "\n";
+}
+
+char *GetAlgorithmSpecifiers(void)
+{
+	return "P. Planar embedding and Kuratowski subgraph isolation\n"
+		   "D. Planar graph drawing by visibility representation\n"
+		   "O. Outerplanar embedding and obstruction isolation\n"
+		   "2. Search for subgraph homeomorphic to K_{2,3}\n"
+		   "3. Search for subgraph homeomorphic to K_{3,3}\n"
+		   "4. Search for subgraph homeomorphic to K_4\n";
+}
+
+char *GetAlgorithmChoices(void)
+{
+	return "pdo234";
+}
+
+/****************************************************************************
+ ****************************************************************************/
+
+int GetEmbedFlags(char command)
+{
+	int embedFlags = 0;
+
+	switch (command)
+	{
+	case 'o':
+		embedFlags = EMBEDFLAGS_OUTERPLANAR;
+		break;
+	case 'p':
+		embedFlags = EMBEDFLAGS_PLANAR;
+		break;
+	case 'd':
+		embedFlags = EMBEDFLAGS_DRAWPLANAR;
+		break;
+	case '2':
+		embedFlags = EMBEDFLAGS_SEARCHFORK23;
+		break;
+	case '3':
+		embedFlags = EMBEDFLAGS_SEARCHFORK33;
+		break;
+	case '4':
+		embedFlags = EMBEDFLAGS_SEARCHFORK4;
+		break;
+	}
+
+	return embedFlags;
+}
+
+/****************************************************************************
+ ****************************************************************************/
+
+char *GetAlgorithmName(char command)
+{
+	char *algorithmName = "UnsupportedAlgorithm";
+
+	switch (command)
+	{
+	case 'p':
+		algorithmName = "PlanarEmbed";
+		break;
+	case 'd':
+		algorithmName = DRAWPLANAR_NAME;
+		break;
+	case 'o':
+		algorithmName = "OuterplanarEmbed";
+		break;
+	case '2':
+		algorithmName = K23SEARCH_NAME;
+		break;
+	case '3':
+		algorithmName = K33SEARCH_NAME;
+		break;
+	case '4':
+		algorithmName = K4SEARCH_NAME;
+		break;
+	}
+
+	return algorithmName;
+}
+
+/****************************************************************************
+ ****************************************************************************/
+
+char *GetTransformationName(char command)
+{
+	char *transformationName = "UnsupportedTransformation";
+
+	switch (command)
+	{
+	case 'g':
+		transformationName = "G6";
+		break;
+	case 'a':
+		transformationName = "AdjList";
+		break;
+	case 'm':
+		transformationName = "AdjMat";
+		break;
+	}
+
+	return transformationName;
+}
+
+char *GetSupportedOutputChoices(void)
+{
+	return "G. G6 format\n"
+		   "A. Adjacency List format\n"
+		   "M. Adjacency Matrix format\n";
+}
+
+char *GetSupportedOutputFormats(void)
+{
+	return "gam";
+}
+
+/****************************************************************************
+ ****************************************************************************/
+
+char *GetBaseName(int baseFlag)
+{
+	char *transformationName = baseFlag ? "1-based" : "0-based";
+
+	return transformationName;
+}
+
+/****************************************************************************
+ ****************************************************************************/
+
+void AttachAlgorithm(graphP theGraph, char command)
+{
+	switch (command)
+	{
+	case 'd':
+		gp_AttachDrawPlanar(theGraph);
+		break;
+	case '2':
+		gp_AttachK23Search(theGraph);
+		break;
+	case '3':
+		gp_AttachK33Search(theGraph);
+		break;
+	case '4':
+		gp_AttachK4Search(theGraph);
+		break;
+	}
+}
+
+/****************************************************************************
+ A string used to construct input and output filenames.
+
+ The SUFFIXMAXLENGTH is 32 to accommodate ".out.txt" + ".render.txt" + ".test.txt"
+ ****************************************************************************/
+
+#define FILENAMEMAXLENGTH 128
+#define ALGORITHMNAMEMAXLENGTH 32
+#define SUFFIXMAXLENGTH 32
+
+char theFileName[FILENAMEMAXLENGTH + 1 + ALGORITHMNAMEMAXLENGTH + 1 + SUFFIXMAXLENGTH + 1];
+
+/****************************************************************************
+ ConstructInputFilename()
+ Returns a string not owned by the caller (do not free string).
+ String contains infileName content if infileName is non-NULL.
+ If infileName is NULL, then the user is asked to supply a name.
+ Returns NULL on error, or a non-NULL string on success.
+ ****************************************************************************/
+
+char *ConstructInputFilename(char *infileName)
+{
+	if (infileName == NULL)
+	{
+		Prompt("Enter graph file name: ");
+		fflush(stdin);
+		scanf(" %s", theFileName);
+
+		if (!strchr(theFileName, '.'))
+			strcat(theFileName, ".txt");
+	}
+	else
+	{
+		if (strlen(infileName) > FILENAMEMAXLENGTH)
+		{
+			ErrorMessage("Filename is too long");
+			return NULL;
+		}
+		strcpy(theFileName, infileName);
+	}
+
+	return theFileName;
+}
+
+/****************************************************************************
+ ConstructPrimaryOutputFilename()
+ Returns a string not owned by the caller (do not free string).
+ Reuses the same memory space as ConstructInputFilename().
+ If outfileName is non-NULL, then the result string contains its content.
+ If outfileName is NULL, then the infileName and the command's algorithm name
+ are used to construct a string.
+ Returns non-NULL string
+ ****************************************************************************/
+
+char *ConstructPrimaryOutputFilename(char *infileName, char *outfileName, char command)
+{
+	char *algorithmName = GetAlgorithmName(command);
+
+	if (outfileName == NULL)
+	{
+		// The output filename is based on the input filename
+		if (theFileName != infileName)
+			strcpy(theFileName, infileName);
+
+		// If the primary output filename has not been given, then we use
+		// the input filename + the algorithm name + a simple suffix
+		if (strlen(algorithmName) <= ALGORITHMNAMEMAXLENGTH)
+		{
+			strcat(theFileName, ".");
+			strcat(theFileName, algorithmName);
+		}
+		else
+			ErrorMessage("Algorithm Name is too long, so it will not be used in output filename.");
+
+		strcat(theFileName, ".out.txt");
+	}
+	else
+	{
+		if (strlen(outfileName) > FILENAMEMAXLENGTH)
+		{
+			// The output filename is based on the input filename
+			if (theFileName != infileName)
+				strcpy(theFileName, infileName);
+
+			if (strlen(algorithmName) <= ALGORITHMNAMEMAXLENGTH)
+			{
+				strcat(theFileName, ".");
+				strcat(theFileName, algorithmName);
+			}
+			strcat(theFileName, ".out.txt");
+			char *messageFormat = "Outfile filename is too long. Result placed in \"%.*s\"";
+			char messageContents[MAXLINE + 1];
+			int charsAvailForStrToInclude = (int)(MAXLINE - strlen(messageFormat));
+			sprintf(messageContents, messageFormat, charsAvailForStrToInclude, theFileName);
+			ErrorMessage(messageContents);
+		}
+		else
+		{
+			if (theFileName != outfileName)
+				strcpy(theFileName, outfileName);
+		}
+	}
+
+	return theFileName;
+}
+
+/****************************************************************************
+ ConstructTransformationExpectedResultFilename()
+ Returns a string whose ownership will be transferred to the caller (must free string).
+ If outfileName is non-NULL, then the result string contains its content.
+ If outfileName is NULL, then the infileName, the command's algorithm name, and
+ whether or not this output file correspond to the actual (0) or expected (1)
+ output file from testing are used to construct a string.
+ Returns non-NULL string
+ ****************************************************************************/
+
+int ConstructTransformationExpectedResultFilename(char *infileName, char **outfileName, char command, int baseFlag)
+{
+	int Result = OK;
+	char *baseName = GetBaseName(baseFlag);
+	char *transformationName = GetTransformationName(command);
+	int infileNameLen = -1;
+
+	if (infileName == NULL || (infileNameLen = strlen(infileName)) < 1)
+	{
+		ErrorMessage("Cannot construct transformation output filename for empty infileName.\n");
+		return NOTOK;
+	}
+
+	if ((*outfileName) == NULL)
+	{
+		(*outfileName) = (char *)calloc(infileNameLen + 1 + strlen(baseName) + 1 + strlen(transformationName) + ((command == 'g') ? strlen(".out.g6") : strlen(".out.txt")) + 1, sizeof(char));
+
+		if ((*outfileName) == NULL)
+		{
+			ErrorMessage("Unable to allocate memory for output filename.\n");
+			return NOTOK;
+		}
+
+		strcpy((*outfileName), infileName);
+		strcat((*outfileName), ".");
+		strcat((*outfileName), baseName);
+		strcat((*outfileName), ".");
+		strcat((*outfileName), transformationName);
+		strcat((*outfileName), command == 'g' ? ".out.g6" : ".out.txt");
+	}
+	else
+	{
+		ErrorMessage("outfileName already allocated.\n");
+		Result = NOTOK;
+	}
+
+	return Result;
+}
-- 
2.43.0

