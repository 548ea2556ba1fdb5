/* A file system for SQLite that forwards every operation to the simulator.
 * The declarations are those of SQLite's stable interface. */
#include <string.h>
#include <stdlib.h>
#include <stdint.h>

typedef long long i64;
typedef struct sqlite3_file sqlite3_file;
typedef struct sqlite3_io_methods sqlite3_io_methods;
typedef struct sqlite3_vfs sqlite3_vfs;
struct sqlite3_file { const sqlite3_io_methods *pMethods; };
struct sqlite3_io_methods {
  int iVersion;
  int (*xClose)(sqlite3_file*);
  int (*xRead)(sqlite3_file*, void*, int, i64);
  int (*xWrite)(sqlite3_file*, const void*, int, i64);
  int (*xTruncate)(sqlite3_file*, i64);
  int (*xSync)(sqlite3_file*, int);
  int (*xFileSize)(sqlite3_file*, i64*);
  int (*xLock)(sqlite3_file*, int);
  int (*xUnlock)(sqlite3_file*, int);
  int (*xCheckReservedLock)(sqlite3_file*, int*);
  int (*xFileControl)(sqlite3_file*, int, void*);
  int (*xSectorSize)(sqlite3_file*);
  int (*xDeviceCharacteristics)(sqlite3_file*);
};
struct sqlite3_vfs {
  int iVersion;
  int szOsFile;
  int mxPathname;
  sqlite3_vfs *pNext;
  const char *zName;
  void *pAppData;
  int (*xOpen)(sqlite3_vfs*, const char*, sqlite3_file*, int, int*);
  int (*xDelete)(sqlite3_vfs*, const char*, int);
  int (*xAccess)(sqlite3_vfs*, const char*, int, int*);
  int (*xFullPathname)(sqlite3_vfs*, const char*, int, char*);
  void *(*xDlOpen)(sqlite3_vfs*, const char*);
  void (*xDlError)(sqlite3_vfs*, int, char*);
  void (*(*xDlSym)(sqlite3_vfs*, void*, const char*))(void);
  void (*xDlClose)(sqlite3_vfs*, void*);
  int (*xRandomness)(sqlite3_vfs*, int, char*);
  int (*xSleep)(sqlite3_vfs*, int);
  int (*xCurrentTime)(sqlite3_vfs*, double*);
  int (*xGetLastError)(sqlite3_vfs*, int, char*);
};
extern int sqlite3_vfs_register(sqlite3_vfs*, int) __attribute__((weak));

/* implemented in Go */
extern int vsimOp(int op, i64 h, i64 a, i64 b, void *name, int nlen, void *data, i64 dlen, i64 *out);

enum { OP_OPEN = 10, OP_CLOSE, OP_READ, OP_WRITE, OP_TRUNC, OP_SYNC, OP_SIZE, OP_LOCK, OP_UNLOCK, OP_RESERVED, OP_DELETE, OP_ACCESS, OP_SLEEP, OP_RANDOM, OP_TIME };

typedef struct { sqlite3_file base; i64 h; } file;
#define H(f) (((file *)(f))->h)

static int xClose(sqlite3_file *f) { return vsimOp(OP_CLOSE, H(f), 0, 0, 0, 0, 0, 0, 0); }
static int xRead(sqlite3_file *f, void *p, int n, i64 off) { return vsimOp(OP_READ, H(f), off, n, 0, 0, p, n, 0); }
static int xWrite(sqlite3_file *f, const void *p, int n, i64 off) { return vsimOp(OP_WRITE, H(f), off, n, 0, 0, (void *)p, n, 0); }
static int xTruncate(sqlite3_file *f, i64 n) { return vsimOp(OP_TRUNC, H(f), n, 0, 0, 0, 0, 0, 0); }
static int xSync(sqlite3_file *f, int fl) { return vsimOp(OP_SYNC, H(f), fl, 0, 0, 0, 0, 0, 0); }
static int xFileSize(sqlite3_file *f, i64 *n) { return vsimOp(OP_SIZE, H(f), 0, 0, 0, 0, 0, 0, n); }
static int xLock(sqlite3_file *f, int l) { return vsimOp(OP_LOCK, H(f), l, 0, 0, 0, 0, 0, 0); }
static int xUnlock(sqlite3_file *f, int l) { return vsimOp(OP_UNLOCK, H(f), l, 0, 0, 0, 0, 0, 0); }
static int xReserved(sqlite3_file *f, int *r) { i64 v = 0; int rc = vsimOp(OP_RESERVED, H(f), 0, 0, 0, 0, 0, 0, &v); *r = (int)v; return rc; }
static int xControl(sqlite3_file *f, int op, void *p) { (void)f; (void)op; (void)p; return 12; }
static int xSector(sqlite3_file *f) { (void)f; return 4096; }
static int xDevice(sqlite3_file *f) { (void)f; return 0x1000; /* powersafe overwrite, as the unix VFS has it */ }
static const sqlite3_io_methods methods = { 1, xClose, xRead, xWrite, xTruncate, xSync, xFileSize, xLock, xUnlock, xReserved, xControl, xSector, xDevice };

static int xOpen(sqlite3_vfs *v, const char *name, sqlite3_file *f, int flags, int *outFlags) {
  i64 h = 0;
  (void)v;
  f->pMethods = 0;
  int rc = vsimOp(OP_OPEN, 0, flags, 0, (void *)name, name ? (int)strlen(name) : 0, 0, 0, &h);
  if (rc) return rc;
  H(f) = h;
  f->pMethods = &methods;
  if (outFlags) *outFlags = flags;
  return 0;
}
static int xDelete(sqlite3_vfs *v, const char *name, int dirsync) { (void)v; return vsimOp(OP_DELETE, 0, dirsync, 0, (void *)name, (int)strlen(name), 0, 0, 0); }
static int xAccess(sqlite3_vfs *v, const char *name, int flags, int *r) { i64 o = 0; (void)v; int rc = vsimOp(OP_ACCESS, 0, flags, 0, (void *)name, (int)strlen(name), 0, 0, &o); *r = (int)o; return rc; }
static int xFull(sqlite3_vfs *v, const char *name, int n, char *out) {
  (void)v;
  while (name[0] == '.' && name[1] == '/') name += 2;
  int l = (int)strlen(name), k = 0;
  if (l + 8 > n) return 14;
  if (name[0] != '/') { memcpy(out, "/sim/", 5); k = 5; }
  memcpy(out + k, name, l + 1);
  return 0;
}
static void *xDlOpen(sqlite3_vfs *v, const char *n) { (void)v; (void)n; return 0; }
static void xDlError(sqlite3_vfs *v, int n, char *m) { (void)v; if (n > 0) m[0] = 0; }
static void (*xDlSym(sqlite3_vfs *v, void *h, const char *s))(void) { (void)v; (void)h; (void)s; return 0; }
static void xDlClose(sqlite3_vfs *v, void *h) { (void)v; (void)h; }
static int xRandom(sqlite3_vfs *v, int n, char *out) { (void)v; vsimOp(OP_RANDOM, 0, n, 0, 0, 0, out, n, 0); return n; }
static int xSleep(sqlite3_vfs *v, int us) { (void)v; vsimOp(OP_SLEEP, 0, us, 0, 0, 0, 0, 0, 0); return us; }
static int xTime(sqlite3_vfs *v, double *t) { i64 ns = 0; (void)v; vsimOp(OP_TIME, 0, 0, 0, 0, 0, 0, 0, &ns); *t = 2440587.5 + (double)ns / 86400e9; return 0; }
static int xLast(sqlite3_vfs *v, int n, char *m) { (void)v; if (n > 0) m[0] = 0; return 0; }
static sqlite3_vfs vfs = { 1, sizeof(file), 512, 0, "vsim", 0, xOpen, xDelete, xAccess, xFull, xDlOpen, xDlError, xDlSym, xDlClose, xRandom, xSleep, xTime, xLast };

int vsim_register(void) { return sqlite3_vfs_register ? sqlite3_vfs_register(&vfs, 1) : -1; }
