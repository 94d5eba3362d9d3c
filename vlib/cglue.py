"""Generates the C that drives real generated mocks: one glue file per mocked header (a table of
expect/call functions translating value tokens to concrete values and back) and one core program
reading operations on stdin and printing what it observed as JSON lines."""
from cmodel import *

NTOK = 4   # value tokens 0..3; 0 is the zero value
NOUT = 3   # output objects per parameter

INTV = {8: ["0", "1", "0x7f", "0xc2"], 16: ["0", "1", "0x7fff", "0xc215"],
        32: ["0", "1", "0x7fffffff", "0xc2152637"],
        64: ["0", "1", "0x7fffffffffffffffLL", "0xc215263748596a7bULL"],
        128: ["0", "1", "((__int128)1 << 100)", "(((unsigned __int128)0xc215263748596a7bULL << 64) | 0xf122334455667788ULL)"]}
FLTV = ["0", "1.5", "-2.25", "1024.125"]


class Conv:
    """Emits set_<k>/eq_<k> functions for the types it is asked about."""

    def __init__(self):
        self.done = {}
        self.code = []

    def prim_val(self, p):
        if p == "_Bool":
            return ["0", "1", "0", "1"]
        bits, signed, fam = PRIMS[p]
        return FLTV if fam == "f" else INTV[bits]

    def get(self, t):
        """id of the conversion functions for the (unqualified) type t"""
        t = strip_const(t)
        k = decl(t, "x")
        if k in self.done:
            return self.done[k]
        i = len(self.done)
        self.done[k] = i
        setc, eqc = self.body(t, "(*p)", "(*a)", "(*b)", "t", 0)
        self.code.append("typedef %s;" % decl(t, "cv%d_t" % i))
        self.code.append("static void set_%d(cv%d_t *p, int t) { memset((void*)p, 0, sizeof(*p)); if(t != 0) { %s } }" % (i, i, setc))
        self.code.append("static int eq_%d(const cv%d_t *a, const cv%d_t *b) { return %s; }" % (i, i, i, eqc or "1"))
        self.code.append("static int tok_%d(const cv%d_t *p) { cv%d_t x; for(int t = 0; t < %d; t++) { set_%d(&x, t); if(eq_%d(p, &x)) return t; } return -9; }"
                         % (i, i, i, NTOK, i, i))
        self.code.append("static void __attribute__((unused)) unused_%d(void) { (void)set_%d; (void)eq_%d; (void)tok_%d; }" % (i, i, i, i))
        return i

    def body(self, t, p, a, b, tok, depth):
        """(statements setting p from token, expression comparing a and b)"""
        c = canon(t)
        if isinstance(c, Prim):
            vs = self.prim_val(c.name)
            s = "static const %s v%d[] = {%s}; %s = v%d[%s];" % (c.name, depth, ", ".join("(%s)%s" % (c.name, v) for v in vs), p, depth, tok)
            return "{ %s }" % s, "%s == %s" % (a, b)
        if isinstance(c, (Ptr,)):
            return "%s = (__typeof__(%s))(vf_anchor + 16 * %s);" % (p, p, tok), "%s == %s" % (a, b)
        if isinstance(c, Named) and isinstance(c.d, Enum):
            return "%s = (%s)%s;" % (p, c.name, tok), "%s == %s" % (a, b)
        if isinstance(c, Arr):
            x = "i%d" % depth
            s, e = self.body(c.of, "%s[%s]" % (p, x), "%s[%s]" % (a, x), "%s[%s]" % (b, x), tok, depth + 1)
            n = c.n
            es = "({ int q%d = 1; for(int %s = 0; q%d && %s < %d; %s++) q%d = (%s); q%d; })" % (depth, x, depth, x, n, x, depth, e or "1", depth)
            return "for(int %s = 0; %s < %d; %s++) { %s }" % (x, x, n, x, s), es
        rec = c.rec if isinstance(c, AnonRec) else (c.d if isinstance(c, Named) else None)
        if rec is not None:
            ss, es = [], []
            fs = rec.fields if rec.kind == "struct" else rec.fields[:1]
            for j, f in enumerate(fs):
                if f.bits is not None:
                    if not f.name:
                        continue
                    ss.append("%s.%s = %s & %d;" % (p, f.name, tok, (1 << f.bits) - 1))
                    es.append("%s.%s == %s.%s" % (a, f.name, b, f.name))
                    continue
                m = "." + f.name if f.name else ""
                s, e = self.body(f.ty, p + m, a + m, b + m, tok, depth + 1)
                ss.append(s)
                if e:
                    es.append("(%s)" % e)
            return " ".join("{ %s }" % s for s in ss), " && ".join(es)
        raise TypeError(decl(t, "x"))


def uarg(t):
    """The type of the object an argument of type t is read from (arrays decay, const dropped)."""
    c = canon(t)
    if isinstance(c, Arr):
        return Ptr(c.of)
    if isinstance(c, Func):
        return Ptr(c)
    return strip_const(t)


def glue(hdr, table, mockhdr=None):
    """C source driving the mocks of hdr."""
    cv = Conv()
    raw = getattr(hdr, "rawsz", 64)      # the size of the objects behind pointers to unknown types
    body = []
    rows = []
    for fi, f in enumerate(hdr.fns):
        np = len(f.params)
        kinds = [out_kind(t) for t, _ in f.params]
        # matchers
        for p, (t, n) in enumerate(f.params):
            k = cv.get(uarg(t))
            f_tok = "tok_%d" % k
            if kinds[p] != "none":
                tgt = "unsigned char" if kinds[p] == "raw" else None
                size = 64 if kinds[p] == "raw" else None
                pt = pointee(t)
                if kinds[p] == "raw":
                    body.append("static struct { unsigned char pre[32]; unsigned char v[%d] __attribute__((aligned(16))); unsigned char post[32]; } cb_%d_%d[%d];" % (raw, fi, p, NTOK))
                    body.append("static unsigned char oo_%d_%d[%d][%d] __attribute__((aligned(16)));" % (fi, p, NOUT, raw))
                else:
                    ok = cv.get(pt)
                    body.append("static struct { unsigned char pre[32]; cv%d_t v __attribute__((aligned(16))); unsigned char post[32]; } cb_%d_%d[%d];" % (ok, fi, p, NTOK))
                    body.append("static cv%d_t oo_%d_%d[%d];" % (ok, fi, p, NOUT))
                # pointer tokens of this parameter designate the caller buffers
                # (an expectation of every other one expects the address of an output object: any address will do for the matchers here)
                body.append("static int ptok_%d_%d(const cv%d_t *x) { if(*x == 0) return 0; for(int t = 1; t < %d; t++) if((const void*)*x == (const void*)&cb_%d_%d[t].v"
                            " || (const void*)*x == (const void*)&oo_%d_%d[t - 1]) return t; return -9; }" % (fi, p, k, NTOK, fi, p, fi, p))
                body.append("static void eset_%d_%d(cv%d_t *x, int t) { *x = t == 0 ? 0 : (cv%d_t)(void*)%s; }"
                            % (fi, p, k, k, "&oo_%d_%d[t - 1]" % (fi, p) if (fi + p) % 2 else "&cb_%d_%d[t].v" % (fi, p)))
                body.append("static void pset_%d_%d(cv%d_t *x, int t) { *x = t == 0 ? 0 : (cv%d_t)(void*)&cb_%d_%d[t].v; }" % (fi, p, k, k, fi, p))
            else:
                body.append("static int ptok_%d_%d(const cv%d_t *x) { return tok_%d(x); }" % (fi, p, k, k))
                body.append("static void pset_%d_%d(cv%d_t *x, int t) { set_%d(x, t); }" % (fi, p, k, k))
            nm = '"%s"' % n if n else "0"
            for mode in range(1, 7):
                body.append("static int m_%d_%d_%d(const void *cur, const void *exp, const char *name, char *err) { "
                            "return vf_match(%s_base + %d, %d, %d, %s, name, err, ptok_%d_%d((const cv%d_t *)cur), ptok_%d_%d((const cv%d_t *)exp)); }"
                            % (fi, p, mode, table, fi, p + 1, mode, nm, fi, p, k, fi, p, k))
            body.append("static const EasyMock_Matcher mt_%d_%d[] = {0, %s};" % (fi, p, ", ".join("m_%d_%d_%d" % (fi, p, m) for m in range(1, 7))))
        rk = None if f.void else cv.get(f.ret)
        # expect: a[0]=variant a[1]=ret then per param par,mat,out,osz
        s = ["static void expect_%d(const int *a) {" % fi, "  (void)a;"]
        args = []
        outs = []
        for p, (t, n) in enumerate(f.params):
            k = cv.get(uarg(t))
            s.append("  cv%d_t p%d; %s_%d_%d(&p%d, a[%d]);" % (k, p, "pset" if kinds[p] == "none" else "eset", fi, p, p, 2 + 4 * p))
            args.append("p%d" % p)
        if not f.void:
            s.append("  cv%d_t r; set_%d(&r, a[1]);" % (rk, rk))
            args.append("r")
        for p in range(np):
            args.append("mt_%d_%d[a[%d]]" % (fi, p, 3 + 4 * p))
        for p in range(np):
            if kinds[p] != "none":
                outs.append("a[%d] < 0 ? 0 : (void*)&oo_%d_%d[a[%d]]" % (4 + 4 * p, fi, p, 4 + 4 * p))
                if kinds[p] == "raw":
                    outs.append("(easyMock_size_t)a[%d]" % (5 + 4 * p))
        s.append("  if(!a[0]) { %s_ExpectAndReturn(%s); return; }" % (f.name, ", ".join(args)))
        if outs:
            s.append("  %s_ExpectReturnAndOutput(%s);" % (f.name, ", ".join(args + outs)))
        else:
            s.append("  abort();")
        s.append("}")
        body += s
        # reset of caller buffers and output objects' contents
        s = ["static void mut_%d(int p, int i, int c) { (void)p; (void)i; (void)c;" % fi]
        for p in range(np):
            if kinds[p] == "raw":
                s.append("  if(p == %d) for(unsigned j = 0; j < sizeof(oo_%d_%d[i]); j++) oo_%d_%d[i][j] = VF_RAW(c, j);" % (p + 1, fi, p, fi, p))
            elif kinds[p] == "sized":
                s.append("  if(p == %d) set_%d(&oo_%d_%d[i], c);" % (p + 1, cv.get(pointee(f.params[p][0])), fi, p))
        s.append("}")
        body += s
        # call: a[0..np-1] tokens
        s = ["static void call_%d(const int *a) {" % fi, "  (void)a;"]
        for p in range(np):
            if kinds[p] != "none":
                s.append("  for(int t = 0; t < %d; t++) memset(&cb_%d_%d[t], 0xA5, sizeof(cb_%d_%d[t]));" % (NTOK, fi, p, fi, p))
        cargs = []
        for p, (t, n) in enumerate(f.params):
            k = cv.get(uarg(t))
            s.append("  cv%d_t p%d; pset_%d_%d(&p%d, a[%d]);" % (k, p, fi, p, p, p))
            cargs.append("p%d" % p)
        if f.variadic:
            cargs += ["1", "2.5", '"x"']
        if f.void:
            s.append("  %s(%s);" % (f.name, ", ".join(cargs)))
            s.append("  vf_ret(0);")
        else:
            s.append("  cv%d_t r = %s(%s);" % (rk, f.name, ", ".join(cargs)))
            s.append("  vf_ret(tok_%d(&r));" % rk)
        for p in range(np):
            if kinds[p] == "none":
                s.append("  vf_out(-1);")
            elif kinds[p] == "raw":
                s.append("  { int w = -1; for(int t = 0; t < %d; t++) { int x = vf_raw((unsigned char*)&cb_%d_%d[t], sizeof(cb_%d_%d[t]), (unsigned char*)&cb_%d_%d[t].v - (unsigned char*)&cb_%d_%d[t]);"
                         " if(x != -1) w = (t == a[%d]) ? x : -9; } vf_out(w); }" % (NTOK, fi, p, fi, p, fi, p, fi, p, p))
            else:
                ok = cv.get(pointee(f.params[p][0]))
                s.append("  { int w = -1; for(int t = 0; t < %d; t++) { cv%d_t x; unsigned char s[sizeof(cb_%d_%d[t])]; memset(s, 0xA5, sizeof(s));"
                         " if(memcmp(s, &cb_%d_%d[t], sizeof(s)) == 0) continue;"
                         " if(t != a[%d]) { w = -9; break; } w = -9;"
                         " for(int c = 0; c < %d; c++) { set_%d(&x, c); memcpy(s + ((unsigned char*)&cb_%d_%d[t].v - (unsigned char*)&cb_%d_%d[t]), &x, sizeof(x));"
                         " if(memcmp(s, &cb_%d_%d[t], sizeof(s)) == 0) { w = c; break; } } } vf_out(w); }"
                         % (NTOK, ok, fi, p, fi, p, p, NTOK, ok, fi, p, fi, p, fi, p))
        s.append("}")
        body += s
        rows.append('  {"%s", %d, expect_%d, call_%d, mut_%d}' % (f.name, np, fi, fi, fi))
    src = ["/* generated */", "#include <string.h>", "#include <stdlib.h>", '#include "vf.h"',
           '#include "%s"' % (mockhdr or "easyMock_" + hdr.name), "static int %s_base;" % table]
    src += cv.code + body
    src.append("static const vf_fn rows[] = {\n%s\n};" % ",\n".join(rows or ["  {0,0,0,0,0}"]))
    src.append("const vf_table %s = {rows, %d, &%s_base};" % (table, len(rows), table))
    return "\n".join(src) + "\n"


VF_H = r"""
#ifndef VF_H
#define VF_H
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { const char *name; int np; void (*expect)(const int *); void (*call)(const int *); void (*mut)(int, int, int); } vf_fn;
typedef struct { const vf_fn *rows; int n; int *base; } vf_table;
extern unsigned char vf_anchor[64];
extern int vf_inst;
int vf_match(int fn, int p, int mode, const char *want, const char *name, char *err, int cur, int exp);
void vf_ret(int tok);
void vf_out(int tok);
int vf_raw(const unsigned char *buf, unsigned long size, unsigned long off);
/* byte j of content c: never 0xA5, and the first one tells c */
#define VF_RAW(c, j) ((unsigned char)((c) * 37 + (j) % 37 + 1))
#ifdef __cplusplus
}
#endif
#endif
"""

CORE = r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <dlfcn.h>
#include <unistd.h>
#include <signal.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <easyMock.h>
#include "vf.h"

unsigned char vf_anchor[64];
int vf_inst;
static int cur_fn, nlog, nouts, ret_tok;
static struct { int p, cur, exp; } mlog[256];
static int outs[64];

int vf_match(int fn, int p, int mode, const char *want, const char *name, char *err, int cur, int exp)
{
  int pp = p;
  if(fn != cur_fn) pp = 1000 + p;
  else if(!name || (want && strcmp(want, name)) || (!want && !name[0])) pp = -p;
  if(nlog < 256) { mlog[nlog].p = pp; mlog[nlog].cur = cur; mlog[nlog].exp = exp; nlog++; }
  switch(mode)
  {
    case 1: return 0;
    case 2: sprintf(err, "M%d", p); return 1;
    case 3: sprintf(err, "N%d", p); return -7;
    case 4: sprintf(err, "JUNK%d", p); return 0;
    case 5: return 1;
    case 6: memset(err, '.', 255); err[255] = 0; { char b[16]; int n = sprintf(b, "LONG%d", p); memcpy(err, b, n); } return 1 << 30;
  }
  return 0;
}
void vf_ret(int t) { ret_tok = t; }
void vf_out(int t) { outs[nouts++] = t; }
int vf_raw(const unsigned char *b, unsigned long size, unsigned long off)
{
  int changed = 0;
  for(unsigned long i = 0; i < size; i++) if(b[i] != 0xA5) changed = 1;
  if(!changed) return -1;
  for(int c = 0; c < 4; c++)
  {
    unsigned long n = 0;
    while(off + n < size && b[off + n] == VF_RAW(c, n)) n++;
    if(n == 0) continue;
    int ok = 1;
    for(unsigned long i = 0; i < size; i++) if((i < off || i >= off + n) && b[i] != 0xA5) ok = 0;
    if(ok) return c * 1000000 + (int)n;
  }
  return -9;
}

static void js(const char *s)
{
  putchar('"');
  for(; *s; s++)
  {
    unsigned char c = (unsigned char)*s;
    if(c == '"' || c == '\\') { putchar('\\'); putchar(c); }
    else if(c < 32 || c > 126) printf("\\u%04x", c);
    else putchar(c);
  }
  putchar('"');
}

#define MAXFILE 16
static struct { const vf_table *t; void *h; char name[32]; } files[MAXFILE];
static const vf_fn *fns[4096];
static int prev;

static void new_errs(void)
{
  unsigned int n = 0;
  const char **e = easyMock_getErrorArr(&n);
  printf(",\"n\":%u,\"new\":[", n);
  unsigned int from = (unsigned)prev <= n ? (unsigned)prev : 0;
  for(unsigned int i = from; i < n; i++) { if(i > from) putchar(','); js(e && e[i] ? e[i] : "<null>"); }
  printf("]");
  if((unsigned)prev > n) printf(",\"shrunk\":1");
  prev = (int)n;
}

static void attach(int base, const vf_table *t)
{
  *t->base = base;
  for(int i = 0; i < t->n; i++) { fns[base + i] = &t->rows[i]; for(int p = 1; p <= t->rows[i].np; p++) for(int k = 0; k < 3; k++) t->rows[i].mut(p, k, k); }
}

#ifdef STATIC_TABLES
STATIC_TABLES
#endif

static int run_line(char *line)
{
    int a[256]; int n = 0; char *s = line + 1; char *e;
    char arg[512] = "";
    if(line[0] == 'L' || line[0] == 'U') { sscanf(line + 1, "%d %d %500s", &a[0], &a[1], arg); n = 2; }
    else for(;;) { long v = strtol(s, &e, 10); if(e == s) break; a[n++] = (int)v; s = e; }
    nlog = nouts = 0; ret_tok = 0;
    printf("{\"op\":\"%c\"", line[0]);
    switch(line[0])
    {
      case 'I': easyMock_init(); prev = 0; break;
      case 'E': cur_fn = a[0]; vf_inst = a[1]; fns[a[0]]->expect(a + 2); break;
      case 'C':
        cur_fn = a[0]; vf_inst = a[1]; fns[a[0]]->call(a + 2);
        printf(",\"ret\":%d,\"mlog\":[", ret_tok);
        for(int i = 0; i < nlog; i++) printf("%s{\"p\":%d,\"cur\":%d,\"exp\":%d}", i ? "," : "", mlog[i].p, mlog[i].cur, mlog[i].exp);
        printf("],\"outs\":[");
        for(int i = 0; i < nouts; i++) printf("%s%d", i ? "," : "", outs[i]);
        printf("]");
        break;
      case 'B':     /* the same call many times, without an expectation: all must look the same */
      {
        int same = 1, r0 = 0, nl = 0, no = 0, o0[64]; unsigned int before = (unsigned)prev, cnt = 0;
        cur_fn = a[0]; vf_inst = a[1];
        for(int k = 0; k < a[2]; k++)
        {
          nlog = nouts = 0; ret_tok = 0;
          fns[a[0]]->call(a + 3);
          if(k == 0) { r0 = ret_tok; nl = nlog; no = nouts; memcpy(o0, outs, sizeof(o0)); }
          else if(ret_tok != r0 || nlog != nl || nouts != no || memcmp(o0, outs, (size_t)no * sizeof(int))) same = 0;
        }
        const char **e = easyMock_getErrorArr(&cnt);
        for(unsigned int i = before + 1; i < cnt; i++) if(strcmp(e[before], e[i])) same = 0;
        printf(",\"ret\":%d,\"nlog\":%d,\"same\":%d,\"cnt\":%d,\"outs\":[", r0, nl, same, (int)(cnt - before));
        for(int i = 0; i < no; i++) printf("%s%d", i ? "," : "", o0[i]);
        printf("]");
        if(cnt > before) prev = (int)cnt - 1;
        break;
      }
      case 'K': printf(",\"ret\":%d", easyMock_check()); break;
      case 'O': easyMock_setCheckCallsOrder(a[0] ? 1 : 0); break;
      case 'S': easyMock_setPrintCallStack(a[0] ? 1 : 0); break;
      case 'M': fns[a[0]]->mut(a[1], a[2], a[3]); break;
      case 'R':
      {
        unsigned int sz = 12345, sz2 = 54321;
        const char **e2 = easyMock_getErrorArr(&sz);
        printf(",\"size\":%u,\"null\":%s,\"arr\":[", sz, e2 ? "false" : "true");
        if(e2) { unsigned i = 0; for(; i < sz && e2[i]; i++) { if(i) putchar(','); js(e2[i]); } printf("],\"term\":%s", e2[sz] == 0 && i == sz ? "true" : "false"); }
        else printf("],\"term\":true");
        const char *st = easyMock_getErrorStr();
        printf(",\"strnull\":%s,\"str\":", st ? "false" : "true"); js(st ? st : "");
        e2 = easyMock_getErrorArr(&sz2);
        printf(",\"size2\":%u", sz2);
        const char *st2 = easyMock_getErrorStr();
        printf(",\"strnull2\":%s,\"str2\":", st2 ? "false" : "true"); js(st2 ? st2 : "");
        break;
      }
      case 'L':
      {
        void *h = dlopen(arg, RTLD_NOW | RTLD_LOCAL);
        if(!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); return 3; }
        const vf_table *t = (const vf_table *)dlsym(h, "vf_tab");
        if(!t) { fprintf(stderr, "dlsym: %s\n", dlerror()); return 3; }
        files[a[0]].h = h; files[a[0]].t = t;
        attach(a[1], t);
        break;
      }
      case 'U':
      {
        char sym[] = "vf_tab"; (void)sym;
        if(dlclose(files[a[0]].h)) return 3;
        files[a[0]].h = 0;
        void *h = dlopen(arg, RTLD_NOW | RTLD_NOLOAD);
        printf(",\"gone\":%s", h ? "false" : "true");
        if(h) dlclose(h);
        break;
      }
    }
    int anch = 1; for(int i = 0; i < 64; i++) if(vf_anchor[i] != 0x5C) anch = 0;
    printf(",\"anchor\":%d", anch);
    new_errs();
    printf("}\n");
    return 0;
}

int main(int argc, char **argv)
{
  static char line[65536];
  (void)argv;
  easyMock_setPrintCallStack(0);
  easyMock_setCheckCallsOrder(0);
  for(int i = 0; i < 64; i++) vf_anchor[i] = 0x5C;
#ifdef ATTACH
  ATTACH
#endif
  if(argc < 2)
  {
    while(fgets(line, sizeof(line), stdin)) { if(line[0] == 'X') break; int r = run_line(line); if(r) return r; }
    fflush(stdout);
    return 0;
  }
  /* several histories, each in its own process, separated by lines "Z" */
  size_t cap = 1 << 20, len = 0, got;
  char *all = (char *)malloc(cap);
  while((got = fread(all + len, 1, cap - len - 1, stdin)) > 0) { len += got; if(cap - len < 4096) all = (char *)realloc(all, cap *= 2); }
  all[len] = 0;
  char *q = all;
  int hung = 0;
  while(*q)
  {
    char *blk = q;
    char *end = strstr(q, "Z\n");
    while(end && end != all && end[-1] != '\n') end = strstr(end + 1, "Z\n");
    if(!end) break;
    q = end + 2;
    fflush(stdout);
    pid_t pid = fork();
    if(pid == 0)
    {
      *end = 0;
      alarm(hung < 3 ? 20 : 1);
      for(char *l = blk; *l;)
      {
        char *nl = strchr(l, '\n');
        if(!nl) break;
        *nl = 0;
        int r = run_line(l);
        if(r) { fflush(stdout); _exit(r); }
        l = nl + 1;
      }
      fflush(stdout);
      exit(0);
    }
    int st = -1;
    waitpid(pid, &st, 0);
    if(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) hung++;
    printf("{\"op\":\"Z\",\"rc\":%d}\n", WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st));
  }
  fflush(stdout);
  return 0;
}
"""
