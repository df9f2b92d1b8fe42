#ifndef COVER_H
#define COVER_H
#ifdef M4X_GCOV
extern void __gcov_dump(void);
static void cover_dump(void) { __gcov_dump(); }
#else
static void cover_dump(void) {}
#endif
#endif
