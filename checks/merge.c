/* P21: merging sorted inputs, over stand-in inputs that make every key and
 * message they gave out unreadable as soon as they are stepped. */
#include "common.h"
#include "merge.h"
#include "iterator.h"

#define MI 5
#define MK 5
static int ni, nk;
typedef struct { char cls; char v[12]; int vl; } cell;   /* cls -1: absent */
static cell cells[MI][MK];
static int fail_at = -1, calls, failed;

/* ---- stand-in input -------------------------------------------------------- */
typedef struct { iterator super; int id, n, pos, k[MK]; char kb[16], vb[16]; int valid; } inp;
static inp in[MI];
static void in_spoil(inp *p) { memset(p->kb, 0xee, sizeof p->kb); memset(p->vb, 0xee, sizeof p->vb); }
static bool32 in_can_prev(iterator *i) { inp *p = (inp *)i; return p->n && p->pos >= 0; }
static bool32 in_can_next(iterator *i) { inp *p = (inp *)i; return p->n && p->pos < p->n; }
static void in_curr(iterator *i, key *k, message *m)
{
   inp *p = (inp *)i;
   if (!p->n || p->pos < 0 || p->pos >= p->n) mc_violation("the merge reads an input that is not at an entry");
   int  x = p->k[p->pos];
   cell *c = &cells[p->id][x];
   int  n = sprintf(p->kb, "k%d", x);
   memcpy(p->vb, c->v, c->vl);
   *k = key_create(n, p->kb);
   *m = message_create(c->cls, slice_create(c->vl, p->vb));
}
static platform_status in_step(iterator *i, int d)
{
   inp *p = (inp *)i;
   if (d > 0 ? !in_can_next(i) : !in_can_prev(i)) mc_violation("the merge steps an input past its end");
   in_spoil(p);
   if (calls++ == fail_at) { failed = 1; return STATUS_IO_ERROR; }
   p->pos += d;
   return STATUS_OK;
}
static platform_status in_next(iterator *i) { return in_step(i, 1); }
static platform_status in_prev(iterator *i) { return in_step(i, -1); }
static iterator_ops in_ops = {.curr = in_curr, .can_prev = in_can_prev, .can_next = in_can_next, .next = in_next, .prev = in_prev};
static int f_merge(const data_config *c, slice k, message old, merge_accumulator *nw)
{
   if (calls++ == fail_at) { failed = 1; return -1; }
   return app_merge(c, k, old, nw);
}
static int f_final(const data_config *c, slice k, merge_accumulator *o)
{
   if (calls++ == fail_at) { failed = 1; return -1; }
   return app_merge_final(c, k, o);
}
/* ---- model ----------------------------------------------------------------- */
typedef struct { int k, cls, vl; char v[64]; } out;
static out O[MI * MK];
static int nO;
/* mode 0 raw, 1 intermediate, 2 full */
static void model_out(int mode)
{
   nO = 0;
   for (int k = 0; k < nk; k++) {
      out o = {.k = k, .cls = -1};
      for (int i = ni - 1; i >= 0; i--) {   /* newest first */
         cell *c = &cells[i][k];
         if (c->cls < 0) continue;
         if (mode == 0) { out r = {.k = k, .cls = c->cls, .vl = c->vl}; memcpy(r.v, c->v, c->vl); O[nO++] = r; continue; }
         if (o.cls < 0) { o.cls = c->cls; o.vl = c->vl; memcpy(o.v, c->v, c->vl); }
         else if (o.cls == MESSAGE_TYPE_UPDATE) {
            if (c->cls == MESSAGE_TYPE_DELETE) { memmove(o.v + 2, o.v, o.vl); o.v[0] = 'u'; o.v[1] = ':'; o.vl += 2; o.cls = MESSAGE_TYPE_INSERT; }
            else { memmove(o.v + c->vl, o.v, o.vl); memcpy(o.v, c->v, c->vl); o.vl += c->vl; o.cls = c->cls; }
         }
      }
      if (mode == 0 || o.cls < 0) continue;
      if (mode == 2 && o.cls == MESSAGE_TYPE_DELETE) continue;
      if (mode == 2 && o.cls == MESSAGE_TYPE_UPDATE) { memmove(o.v + 2, o.v, o.vl); o.v[0] = 'u'; o.v[1] = ':'; o.vl += 2; o.cls = MESSAGE_TYPE_INSERT; }
      O[nO++] = o;
   }
}
static char what[256];
static void describe(void)
{
   int o = 0;
   for (int i = 0; i < ni; i++) { o += sprintf(what + o, " ["); for (int k = 0; k < nk; k++) o += sprintf(what + o, "%c", ".-IDU?"[cells[i][k].cls < 0 ? 0 : cells[i][k].cls == MESSAGE_TYPE_INSERT ? 2 : cells[i][k].cls == MESSAGE_TYPE_DELETE ? 3 : 4]); o += sprintf(what + o, "]"); }
}
static merge_iterator *mi_;
static merge_behavior  mode_of(int m) { return m == 0 ? MERGE_RAW : m == 1 ? MERGE_INTERMEDIATE : MERGE_FULL; }
static void look(int pos, const char *path, int mode, int fwd)
{
   bool32 n = iterator_can_next(&mi_->super), p = iterator_can_prev(&mi_->super);
   mc_count_check(1);
   int valid = pos >= 0 && pos < nO;
   if (iterator_can_curr(&mi_->super) != valid) { describe(); mc_violation("inputs (oldest first)%s mode %d %s steps \"%s\": the merge is %s an entry, position %d of %d", what, mode, fwd ? "up" : "down", path, valid ? "not at" : "at", pos, nO); }
   if (!valid) {
      if (nO && pos >= nO && (n || !p)) { describe(); mc_violation("inputs%s mode %d %s steps \"%s\": past the end but next %d prev %d", what, mode, fwd ? "up" : "down", path, n, p); }
      if (nO && pos < 0 && (!n || p)) { describe(); mc_violation("inputs%s mode %d %s steps \"%s\": before the start but next %d prev %d", what, mode, fwd ? "up" : "down", path, n, p); }
      return;
   }
   key     k;
   message m;
   iterator_curr(&mi_->super, &k, &m);
   out *o = &O[pos];
   char kb[16];
   int  kl = sprintf(kb, "k%d", o->k);
   if (key_length(k) != kl || memcmp(key_data(k), kb, kl)) { describe(); mc_violation("inputs (oldest first)%s mode %d %s steps \"%s\": at key %.*s instead of %s", what, mode, fwd ? "up" : "down", path, (int)key_length(k) > 20 ? 20 : (int)key_length(k), (char *)key_data(k), kb); }
   if (message_class(m) != o->cls || message_length(m) != o->vl || memcmp(message_data(m), o->v, o->vl)) { describe(); mc_violation("inputs (oldest first)%s mode %d %s steps \"%s\": key %s has message class %d \"%.*s\", expected class %d \"%.*s\"", what, mode, fwd ? "up" : "down", path, kb, message_class(m), (int)message_length(m) > 60 ? 60 : (int)message_length(m), (char *)message_data(m), o->cls, o->vl, o->v); }
}
/* start: inputs at the first key >= st (up) or the last key <= st (down) */
static void open_at(int st, int fwd)
{
   for (int i = 0; i < ni; i++) {
      inp *p = &in[i];
      *p = (inp){.super.ops = &in_ops, .id = i};
      for (int k = 0; k < nk; k++) if (cells[i][k].cls >= 0) p->k[p->n++] = k;
      if (fwd) { p->pos = 0; while (p->pos < p->n && p->k[p->pos] < st) p->pos++; }
      else { p->pos = p->n - 1; while (p->pos >= 0 && p->k[p->pos] > st) p->pos--; }
      in_spoil(p);
   }
}
static iterator *arr[MI];
static uint64_t run(int mode, int st, int fwd, int L, unsigned pat)
{
   open_at(st, fwd);
   int pos;
   if (fwd) { pos = 0; while (pos < nO && O[pos].k < st) pos++; }
   else { pos = nO - 1; while (pos >= 0 && O[pos].k > st) pos--; }
   calls = failed = 0;
   platform_status rc = merge_iterator_create_directed(NULL, &dcfg, ni, arr, mode_of(mode), fwd, &mi_);
   if (!SUCCESS(rc)) {
      if (!failed) mc_violation("creating a merge failed: %d", rc.r);
      return 1;
   }
   char path[40];
   int  np = 0;
   path[0] = 0;
   if (failed) { describe(); mc_violation("an input or callback failed while the merge was created, but it reports success; inputs%s", what); }
   /* nothing at all to return: only bounds */
   int any = 0;
   for (int i = 0; i < ni; i++) any |= in[i].n;
   if (any) look(pos, path, mode, fwd);
   uint64_t sig = nO;
   for (int s = 0; s < L; s++) {
      int up = !(pat >> s & 1);
      if (up ? !iterator_can_next(&mi_->super) : !iterator_can_prev(&mi_->super)) break;
      path[np++] = up ? 'n' : 'p'; path[np] = 0;
      rc = up ? iterator_next(&mi_->super) : iterator_prev(&mi_->super);
      if (failed) {
         if (SUCCESS(rc)) { describe(); mc_violation("an input or callback failed during step %d of \"%s\", but the merge reports success; inputs%s", s, path, what); }
         mc_cover("failures reported", 1);
         break;
      }
      if (!SUCCESS(rc)) { describe(); mc_violation("step %d of \"%s\" failed: %d; inputs%s", s, path, rc.r, what); }
      pos += up ? 1 : -1;
      if (pos > nO) pos = nO;
      if (pos < -1) pos = -1;
      look(pos, path, mode, fwd);
      sig = sig * 31 + pos;
   }
   merge_iterator_destroy(NULL, &mi_);
   return sig;
}
static void s_merge(void)
{
   default_data_config_init(24, &dcfg);
   dcfg.merge_tuples = f_merge; dcfg.merge_tuples_final = f_final;
   platform_set_log_streams(fopen("/dev/null", "w"), fopen("/dev/null", "w"));
   ni = mc_argi("m", 3); nk = mc_argi("k", 2);
   int L = mc_argi("L", 5), modes = mc_argi("modes", 7), fails = mc_argi("fails", 0), nc = mc_argi("cls", 4);
   for (int i = 0; i < ni; i++) arr[i] = &in[i].super;
   /* the first cells are chosen by forking, the others enumerated here */
   int tot = 1, split = ni * nk > 3 ? 3 : ni * nk, head = 1;
   for (int i = 0; i < split; i++) head *= nc;
   for (int i = split; i < ni * nk; i++) tot *= nc;
   int h = mc_choose(head, "first cells");
   static const int cls[] = {-1, MESSAGE_TYPE_INSERT, MESSAGE_TYPE_UPDATE, MESSAGE_TYPE_DELETE};
   mc_arm_watchdog(0);
   for (int q = 0; q < tot; q++) {
      for (int i = 0, x = h, y = q; i < ni * nk; i++) {
         int d;
         if (i < split) { d = x % nc; x /= nc; } else { d = y % nc; y /= nc; }
         cell *cc = &cells[i % ni][i / ni];
         cc->cls = cls[d];
         cc->vl = cls[d] == MESSAGE_TYPE_DELETE ? 0 : sprintf(cc->v, "%d%c", i % ni, 'a' + i / ni);
      }
      for (int mode = 0; mode < 3; mode++) {
         if (!(modes >> mode & 1)) continue;
         model_out(mode);
         for (int fwd = mode == 0; fwd < 2; fwd++) for (int st = fwd ? 0 : -1; st <= nk - !fwd; st++) {
            /* raw: only upwards */
            unsigned np = mode == 0 ? 1 : 1u << L;
            for (unsigned pat = 0; pat < np; pat++) {
               fail_at = -1;
               uint64_t sig = run(mode, st, fwd, mode == 0 ? ni * nk + 1 : L, pat);
               int total = calls;
               if (fails) for (fail_at = 0; fail_at < total; fail_at++) run(mode, st, fwd, L, pat);
               if (pat == np - 1) { int z[4] = {mode, st, fwd, q * head + h}; mc_case(mc_hash(z, sizeof z, sig)); }
            }
         }
      }
   }
}
mc_scenario mc_scenarios[] = {{"merge", s_merge}, {0}};
