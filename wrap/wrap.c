/* Wrapper functions for the function-like macros of /repo's headers: every run expands the macros of the
   current headers into these bodies, so contracts on w_* are contracts on the macro text that the library uses. */
#include <stdlib.h>
#include "lowLevelUtils/appconst.h"
#include "lowLevelUtils/stack.h"
#include "lowLevelUtils/listcoll.h"
#include "graph.h"
#include "graphLib.h"
/* ---- stack ---- */
#ifdef SPEED_MACROS
int w_sp_ClearStack(stackP s) { sp_ClearStack(s); return OK; }
int w_sp_GetCurrentSize(stackP s) { return sp_GetCurrentSize(s); }
int w_sp_SetCurrentSize(stackP s, int k) { return sp_SetCurrentSize(s, k); }
int w_sp_IsEmpty(stackP s) { return sp_IsEmpty(s); }
int w_sp_NonEmpty(stackP s) { return sp_NonEmpty(s); }
int w_sp_Push(stackP s, int a) { sp_Push(s, a); return OK; }
int w_sp_Push2(stackP s, int a, int b) { sp_Push2(s, a, b); return OK; }
int w_sp_Pop(stackP s, int *pa) { int a; sp_Pop(s, a); *pa = a; return OK; }
int w_sp_Pop_Discard(stackP s) { sp_Pop_Discard(s); return OK; }
int w_sp_Pop2(stackP s, int *pa, int *pb) { int a, b; sp_Pop2(s, a, b); *pa = a; *pb = b; return OK; }
int w_sp_Pop2_Discard1(stackP s, int *pa) { int a; sp_Pop2_Discard1(s, a); *pa = a; return OK; }
int w_sp_Pop2_Discard(stackP s) { sp_Pop2_Discard(s); return OK; }
int w_sp_Top(stackP s) { return sp_Top(s); }
int w_sp_Get(stackP s, int k) { return sp_Get(s, k); }
int w_sp_Set(stackP s, int k, int v) { return sp_Set(s, k, v); }
#endif
int w_sp_GetCapacity(stackP s) { return sp_GetCapacity(s); }
/* ---- list collections ---- */
void w_LCReset(listCollectionP lc) { LCReset(lc); }
void w_LCCopy(listCollectionP dst, listCollectionP src) { LCCopy(dst, src); }
int w_LCGetNext(listCollectionP lc, int theList, int theNode) { return LCGetNext(lc, theList, theNode); }
int w_LCGetPrev(listCollectionP lc, int theList, int theNode) { return LCGetPrev(lc, theList, theNode); }
int w_LCPrepend(listCollectionP lc, int theList, int theNode) { return LCPrepend(lc, theList, theNode); }
int w_LCAppend(listCollectionP lc, int theList, int theNode) { return LCAppend(lc, theList, theNode); }
int w_LCDelete(listCollectionP lc, int theList, int theNode) { return LCDelete(lc, theList, theNode); }
/* ---- graph ---- */
void w_HideRestore(graphP g, int e) { gp_HideEdge(g, e); gp_RestoreEdge(g, e); }
