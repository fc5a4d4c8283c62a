/*
** A long-running server around a Lua runtime.  Built twice: vm51 is stock Lua
** 5.1.5, vm50 (-DLUA50VM) has Lua 5.0's compiler and instruction set.
** Requests and answers are length prefixed, on stdin/stdout (see usage below).
**
** request : u8 op, u32 len, payload      (host byte order)
** answer  : u8 status, u32 len, payload
**  'C' : u32 fpf, u32 strip, source      -> 0 dump | 1 message
**  'V' : u32 fpf, chunk                  -> 0      | 1 message      (load only)
**  'R' : u32 fpf, u32 flags, u64 budget, u64 memory limit, chunk
**        -> 0 sections: each u32 len + bytes: status, trace, lines, globals
**           flags: 1 = leave out arg.n (5.0 only)
**                  2 = record the line hook sequence
**                  4 = record active locals at each T call
*/
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <math.h>

#include "src/lua.h"
#include "src/lualib.h"
#include "src/lauxlib.h"
#include "src/lobject.h"
#include "src/lstate.h"
#include "src/lundump.h"

int vp_fpf = 50;
int vp_argn = 1;

#if defined(__has_feature)
#endif
const char *__asan_default_options(void) { return "detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:allocator_may_return_null=1"; }
const char *__ubsan_default_options(void) { return "halt_on_error=1:print_stacktrace=0:exitcode=77"; }

typedef struct { char *p; size_t n, cap, max; int over; } Buf;
static void bput(Buf *b, const void *d, size_t n) {
  if (b->max && b->n + n > b->max) { b->over = 1; return; }
  if (b->n + n > b->cap) {
    b->cap = (b->n + n) * 2 + 256;
    b->p = realloc(b->p, b->cap);
    if (!b->p) abort();
  }
  memcpy(b->p + b->n, d, n);
  b->n += n;
}
static void bstr(Buf *b, const char *s) { bput(b, s, strlen(s)); }

static size_t mem_used, mem_max;
static int mem_hit;
static void *alloc(void *ud, void *ptr, size_t osize, size_t nsize) {
  (void)ud;
  if (nsize == 0) { mem_used -= osize; free(ptr); return NULL; }
  if (nsize > osize && mem_used + (nsize - osize) > mem_max) { mem_hit = 1; return NULL; }
  void *p = realloc(ptr, nsize);
  if (p) mem_used += nsize - osize;
  return p;
}

static Buf trace, lines, globals, status;
static uint64_t budget, used;
static int budget_hit;
static uint32_t flags;
static int last_line = -1;
static uint64_t line_hash, line_count;

static void ser(lua_State *L, Buf *b, int idx, int depth);

static int keycmp(const void *a, const void *b) {
  return strcmp(*(char *const *)a, *(char *const *)b);
}

static void serstr(Buf *b, const char *s, size_t n) {
  size_t i;
  char t[8];
  bstr(b, "\"");
  for (i = 0; i < n; i++) {
    unsigned char c = (unsigned char)s[i];
    if (c >= 32 && c < 127 && c != '"' && c != '\\') bput(b, &s[i], 1);
    else { sprintf(t, "\\%03d", c); bstr(b, t); }
  }
  bstr(b, "\"");
}

static void sernum(Buf *b, double d) {
  char t[64];
  if (d != d) strcpy(t, "nan");
  else if (d == 0) strcpy(t, signbit(d) ? "-0" : "0");
  else sprintf(t, "%.17g", d);
  bstr(b, t);
}

static void ser(lua_State *L, Buf *b, int idx, int depth) {
  if (idx < 0) idx = lua_gettop(L) + idx + 1;
  switch (lua_type(L, idx)) {
    case LUA_TNIL: bstr(b, "nil"); break;
    case LUA_TBOOLEAN: bstr(b, lua_toboolean(L, idx) ? "true" : "false"); break;
    case LUA_TNUMBER: sernum(b, lua_tonumber(L, idx)); break;
    case LUA_TSTRING: { size_t n; const char *s = lua_tolstring(L, idx, &n);
      if (n > 300) { char t[64]; uint64_t h = 1469598103934665603ull; size_t i;
        for (i = 0; i < n; i++) h = (h ^ (unsigned char)s[i]) * 1099511628211ull;
        sprintf(t, "<str %zu %016llx>", n, (unsigned long long)h); bstr(b, t); }
      else serstr(b, s, n);
      break; }
    case LUA_TTABLE: {
      char **keys = NULL; size_t nk = 0, ck = 0, i;
      if (depth > 3) { bstr(b, "{...}"); break; }
      if (!lua_checkstack(L, 8)) { bstr(b, "{stack}"); break; }
      lua_pushnil(L);
      while (lua_next(L, idx)) {
        Buf e; memset(&e, 0, sizeof e);
        if (lua_type(L, -2) == LUA_TNUMBER) {
          /* sortable key */
          char t[64]; double d = lua_tonumber(L, -2);
          if (d == floor(d) && fabs(d) < 1e9) sprintf(t, "#%011.0f ", d + 1e10);
          else sprintf(t, "#~%.17g ", d);
          bstr(&e, t);
        }
        bstr(&e, "[");
        ser(L, &e, -2, depth + 1); bstr(&e, "]="); ser(L, &e, -1, depth + 1);
        bput(&e, "", 1);
        if (nk == ck) { ck = ck * 2 + 16; keys = realloc(keys, ck * sizeof *keys); }
        keys[nk++] = e.p;
        lua_pop(L, 1);
      }
      qsort(keys, nk, sizeof *keys, keycmp);
      bstr(b, "{");
      for (i = 0; i < nk; i++) {
        char *k = keys[i];
        if (k[0] == '#') { k = strchr(k, ' ') + 1; }
        if (i) bstr(b, ",");
        bstr(b, k);
        free(keys[i]);
      }
      free(keys);
      bstr(b, "}");
      break;
    }
    case LUA_TFUNCTION: bstr(b, lua_iscfunction(L, idx) ? "cfunction" : "function"); break;
    default: bstr(b, lua_typename(L, lua_type(L, idx))); break;
  }
}

static int T(lua_State *L) {
  int i, n = lua_gettop(L);
  char t[64];
  lua_Debug ar;
  int have = lua_getstack(L, 1, &ar);
  int line = -1;
  if (have) { lua_getinfo(L, "l", &ar); line = ar.currentline; }
  sprintf(t, "T@%d", line);
  bstr(&trace, t);
  for (i = 1; i <= n; i++) { bstr(&trace, " "); ser(L, &trace, i, 0); }
  if (have && (flags & 4)) {
    const char *name;
    bstr(&trace, " |");
    for (i = 1; i < 250 && (name = lua_getlocal(L, &ar, i)) != NULL; i++) {
      if (strcmp(name, "(*temporary)") == 0) { lua_pop(L, 1); break; }
      bstr(&trace, " "); bstr(&trace, name);
      if (name[0] != '(') { bstr(&trace, "="); ser(L, &trace, -1, 2); }
      lua_pop(L, 1);
    }
  }
  bstr(&trace, "\n");
  return n > 0 ? (lua_settop(L, 1), 1) : 0;
}

static void hook(lua_State *L, lua_Debug *ar) {
  if (ar->event == LUA_HOOKLINE) {
    if (ar->currentline != last_line) {
      char t[32];
      last_line = ar->currentline;
      line_count++;
      line_hash = (line_hash ^ (uint64_t)last_line) * 1099511628211ull;
      sprintf(t, "%d ", last_line);
      bput(&lines, t, strlen(t));
    }
  }
  else {
    used += 1000;
    if (used > budget) {
      budget_hit = 1;
      luaL_error(L, "vp: budget exhausted");
    }
  }
}

static const luaL_Reg libs[] = {
  {"", luaopen_base}, {LUA_TABLIBNAME, luaopen_table},
  {LUA_STRLIBNAME, luaopen_string}, {LUA_MATHLIBNAME, luaopen_math},
  {NULL, NULL}
};

static int panicf(lua_State *L) {
  fprintf(stderr, "PANIC: %s\n", lua_tostring(L, -1));
  abort();
}

static lua_State *newstate(int openlibs) {
  const luaL_Reg *l;
  mem_used = 0;
  lua_State *L = lua_newstate(alloc, NULL);
  if (!L) return NULL;
  lua_atpanic(L, panicf);
  if (openlibs) {
    for (l = libs; l->func; l++) {
      lua_pushcfunction(L, l->func);
      lua_pushstring(L, l->name);
      lua_call(L, 1, 0);
    }
    lua_pushcfunction(L, T);
    lua_setglobal(L, "T");
    static const char *const gone[] = {"dofile", "loadfile", "print", "collectgarbage", "gcinfo", "newproxy", NULL};
    int i;
    for (i = 0; gone[i]; i++) { lua_pushnil(L); lua_setglobal(L, gone[i]); }
    /* remember what is there before the program runs */
    lua_newtable(L);
    lua_pushnil(L);
    while (lua_next(L, LUA_GLOBALSINDEX)) {
      lua_pushvalue(L, -2);
      lua_insert(L, -2);
      lua_settable(L, -4);
    }
    lua_setfield(L, LUA_REGISTRYINDEX, "vp_before");
  }
  return L;
}

static int writer(lua_State *L, const void *p, size_t sz, void *ud) {
  (void)L;
  bput((Buf *)ud, p, sz);
  return 0;
}

static void dumpglobals(lua_State *L) {
  char **keys = NULL; size_t nk = 0, ck = 0, i;
  lua_settop(L, 0);
  lua_getfield(L, LUA_REGISTRYINDEX, "vp_before");
  lua_pushnil(L);
  while (lua_next(L, LUA_GLOBALSINDEX)) {
    if (lua_type(L, -2) == LUA_TSTRING) {
      lua_pushvalue(L, -2);
      lua_rawget(L, 1);
      if (!lua_rawequal(L, -1, -2)) {
        Buf e; size_t n; const char *s;
        memset(&e, 0, sizeof e);
        lua_pop(L, 1);
        s = lua_tolstring(L, -2, &n);
        serstr(&e, s, n);
        bstr(&e, "=");
        ser(L, &e, -1, 1);
        bput(&e, "", 1);
        if (nk == ck) { ck = ck * 2 + 16; keys = realloc(keys, ck * sizeof *keys); }
        keys[nk++] = e.p;
      }
      else lua_pop(L, 1);
    }
    lua_pop(L, 1);
  }
  qsort(keys, nk, sizeof *keys, keycmp);
  for (i = 0; i < nk; i++) { bstr(&globals, keys[i]); bstr(&globals, "\n"); free(keys[i]); }
  free(keys);
}

static void rd(void *p, size_t n) {
  if (fread(p, 1, n, stdin) != n) exit(0);
}
static void answer(uint8_t st, Buf *b) {
  uint32_t n = (uint32_t)b->n;
  fwrite(&st, 1, 1, stdout);
  fwrite(&n, 4, 1, stdout);
  if (n) fwrite(b->p, 1, n, stdout);
  fflush(stdout);
}
static void section(Buf *out, Buf *b) {
  uint32_t n = (uint32_t)b->n;
  bput(out, &n, 4);
  bput(out, b->p, b->n);
}

int main(void) {
  static char ib[1 << 16], ob[1 << 16];
  setvbuf(stdin, ib, _IOFBF, sizeof ib);
  setvbuf(stdout, ob, _IOFBF, sizeof ob);
  for (;;) {
    uint8_t op; uint32_t len; char *p; size_t o = 0;
    Buf out; uint32_t u; uint64_t q;
    memset(&out, 0, sizeof out);
    rd(&op, 1); rd(&len, 4);
    p = malloc(len + 1);
    rd(p, len);
#define U32(x) (memcpy(&u, p + o, 4), o += 4, (x) = u)
#define U64(x) (memcpy(&q, p + o, 8), o += 8, (x) = q)
    if (op == 'C') {
      uint32_t strip; lua_State *L;
      U32(vp_fpf); U32(strip);
      mem_max = (size_t)1 << 30; mem_hit = 0;
      L = newstate(0);
      if (luaL_loadbuffer(L, p + o, len - o, "=prog") != 0) {
        size_t n; const char *s = lua_tolstring(L, -1, &n);
        bput(&out, s, n);
        answer(1, &out);
      }
      else {
        const Closure *c = lua_topointer(L, -1);
        luaU_dump(L, c->l.p, writer, &out, (int)strip);
        answer(0, &out);
      }
      lua_close(L);
    }
    else if (op == 'V') {
      lua_State *L;
      U32(vp_fpf);
      mem_max = (size_t)1 << 30; mem_hit = 0;
      L = newstate(0);
      if (luaL_loadbuffer(L, p + o, len - o, "=chunk") != 0) {
        size_t n; const char *s = lua_tolstring(L, -1, &n);
        bput(&out, s, n);
        answer(1, &out);
      }
      else answer(0, &out);
      lua_close(L);
    }
    else if (op == 'R') {
      lua_State *L; int r; char t[200];
      U32(vp_fpf); U32(flags); U64(budget); U64(mem_max);
      vp_argn = !(flags & 1);
      mem_hit = budget_hit = 0; used = 0;
      trace.n = lines.n = globals.n = status.n = 0;
      trace.over = lines.over = 0;
      trace.max = 1 << 20; lines.max = 1 << 18;
      last_line = -1; line_hash = 1469598103934665603ull; line_count = 0;
      L = newstate(1);
      r = luaL_loadbuffer(L, p + o, len - o, "=chunk");
      if (r == 0) {
        lua_sethook(L, hook, LUA_MASKCOUNT | ((flags & 2) ? LUA_MASKLINE : 0), 1000);
        r = lua_pcall(L, 0, LUA_MULTRET, 0);
        lua_sethook(L, NULL, 0, 0);
        if (r == 0) {
          int i, n = lua_gettop(L);
          bstr(&status, "ok");
          for (i = 1; i <= n; i++) { bstr(&status, " "); ser(L, &status, i, 0); }
        }
        else {
          sprintf(t, "error %d ", r);
          bstr(&status, t);
          ser(L, &status, -1, 0);
        }
      }
      else {
        bstr(&status, "load ");
        ser(L, &status, -1, 0);
      }
      if (budget_hit) { status.n = 0; bstr(&status, "budget"); }
      if (mem_hit) { status.n = 0; bstr(&status, "memory"); }
      mem_max = (size_t)4 << 30;
      sprintf(t, "\n#over %d %d\n#lines %llu %016llx\n#used %llu", trace.over, lines.over,
              (unsigned long long)line_count, (unsigned long long)line_hash, (unsigned long long)used);
      { int h = mem_hit; if (!h) dumpglobals(L); }
      section(&out, &status); section(&out, &trace); section(&out, &lines); section(&out, &globals);
      { Buf e; memset(&e, 0, sizeof e); bstr(&e, t); section(&out, &e); free(e.p); }
      answer(0, &out);
      lua_close(L);
    }
    else return 3;
    free(out.p);
    free(p);
  }
}
