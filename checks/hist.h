/* Histories of concurrent operations and the linearizability oracle. */
#pragma once
enum { H_PUT, H_DEL, H_UPD, H_GET };
typedef struct { int kind, key, thr; uint64_t s, e; int found, len; char v[400]; int vl; uint64_t vh; } hop;
#define MAXH 256
static hop  H[MAXH];
static int  nH;
static char touched[MAXKEYS];
typedef struct { int present, len; uint64_t h; char tail[64]; int tl; } kst; /* state: hash chain of the value */

static hop *h_begin(int kind, int key, int thr)
{
   if (nH >= MAXH) mc_violation("harness: history too long");
   hop *o = &H[nH++];
   memset(o, 0, sizeof *o);
   o->kind = kind; o->key = key; o->thr = thr; o->s = mc_steps(); o->e = UINT64_MAX;
   return o;
}
static void h_end(hop *o) { o->e = mc_steps(); }

/* values used here are short (<= 350 bytes) */
typedef struct { int present, len; char v[400]; } hst;
static int lin_dfs(hop **o, int n, unsigned done, hst *st, uint64_t *seen, int *nseen)
{
   if (done == (1u << n) - 1) return 1;
   uint64_t sig = mc_hash(st->v, st->present ? st->len : 0, done * 2 + st->present);
   for (int i = 0; i < *nseen; i++) if (seen[i] == sig) return 0;
   if (*nseen < 4096) seen[(*nseen)++] = sig;
   for (int i = 0; i < n; i++) {
      if (done >> i & 1) continue;
      int ok = 1;
      for (int j = 0; j < n && ok; j++) if (j != i && !(done >> j & 1) && o[j]->e < o[i]->s) ok = 0;
      if (!ok) continue;
      hst nx = *st;
      switch (o[i]->kind) {
         case H_PUT: nx.present = 1; nx.len = o[i]->vl; memcpy(nx.v, o[i]->v, o[i]->vl); break;
         case H_DEL: nx.present = 0; nx.len = 0; break;
         case H_UPD:
            if (!nx.present) { nx.present = 1; memcpy(nx.v, "u:", 2); nx.len = 2; }
            memcpy(nx.v + nx.len, o[i]->v, o[i]->vl); nx.len += o[i]->vl;
            break;
         case H_GET:
            if (o[i]->found != nx.present || (nx.present && (nx.len != o[i]->vl || memcmp(nx.v, o[i]->v, nx.len)))) continue;
            break;
      }
      if (lin_dfs(o, n, done | 1u << i, &nx, seen, nseen)) return 1;
   }
   return 0;
}
static void hist_check(const char *what)
{
   static uint64_t seen[4096];
   for (int k = 0; k < nkeys; k++) {
      if (!touched[k]) continue;
      hop *o[32];
      int  n = 0;
      for (int i = 0; i < nH; i++) if (H[i].key == k && n < 31) o[n++] = &H[i];
      hst st = {0};
      st.present = model[k].present; st.len = model[k].len > 400 ? 400 : model[k].len;
      if (st.present) memcpy(st.v, model[k].v, st.len);
      int ns = 0;
      mc_count_check(1);
      if (!lin_dfs(o, n, 0, &st, seen, &ns)) {
         char b[1200];
         int  p = 0;
         for (int i = 0; i < n && p < 1100; i++)
            p += snprintf(b + p, sizeof b - p, " [t%d %s %.*s%s @%lu-%lu]", o[i]->thr, o[i]->kind == H_PUT ? "put" : o[i]->kind == H_DEL ? "del" : o[i]->kind == H_UPD ? "upd" : "get", o[i]->vl > 24 ? 24 : o[i]->vl, o[i]->v, o[i]->kind == H_GET ? (o[i]->found ? "" : "not-found") : "", (unsigned long)o[i]->s, (unsigned long)o[i]->e);
         mc_violation("%s: no order of the operations on key %d explains the results: initially %.*s;%s", what, k, model[k].present ? (model[k].len > 24 ? 24 : model[k].len) : 6, model[k].present ? model[k].v : "absent", b);
      }
      for (int i = 0; i < n; i++) if (o[i]->kind == H_GET) { mc_outcome(o[i]->found); mc_outcome_buf(o[i]->v, o[i]->vl); }
   }
}
