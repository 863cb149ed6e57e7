// Reference definitions of the MPI entry points the library calls, for a small
// world of processes that are analysed one after another.  Every process is
// analysed a number of rounds: what it sends, broadcasts or contributes in one
// round is delivered in the next, so that after (communication depth + 1) rounds
// the effect of the operation on every process's memory is in one summary.
#pragma once
#define OMPI_MPI_H
#define MPI_INCLUDED
#include <cstdlib>
#include <cstring>
#include <cstdint>
namespace mpiref
{
enum { F32, F64, I8, I16, I32, I64 };
struct type { int n, kind; long ext; long off[40]; int freed, committed;};
struct msg { int src, seq, dst, n, kind, taken; void *data; void const *from; long off[40];};
struct coll { int kind, seq, root, n, rank; void *data;};
struct op { int k;};
struct comm { int k, n; int r[8];};
struct group { int n; int r[8];};
static int rank_, size_, round_, last_, live_, color_[8], nmsg_, nreq_, ncoll_, seq_, bad_, nsent_, all_, state_, user_, space_;
static void *buffer_;
static msg box_[40];
static coll coll_[64];
static type pool_[8]; static int npool_;
// address zero is MPI_BOTTOM: displacements are then addresses
static inline char *at(void const *p, long o) { return (char*)((uintptr_t)p + (uintptr_t)o);}
static inline int ksize(int k) { return k==F32||k==I32?4:k==I8?1:k==I16?2:8;}
static type const f32 = {1,F32,4,{0},0,1}, f64 = {1,F64,8,{0},0,1}, i8 = {1,I8,1,{0},0,1}, i16 = {1,I16,2,{0},0,1}, i32 = {1,I32,4,{0},0,1}, i64 = {1,I64,8,{0},0,1},
  u8 = i8, byte = i8, s8 = i8, u16 = i16, u32 = i32, u64 = i64, ld = {1,-1,16,{0},0,1};
static comm world = {1};
static group const empty = {0, {0}};
static inline void fault() { if (round_ == last_) ++bad_;} // before the last round, what depends on messages is not settled yet
static op const land = {1}, band = {2}, lor = {3}, bor = {4}, sum = {5}, min = {6}, max = {7};
static inline void cp(int k, void *d, void const *s)
{
  if (k==F32) *(float*)d=*(float const*)s; else if (k==F64) *(double*)d=*(double const*)s; else if (k==I8) *(char*)d=*(char const*)s;
  else if (k==I16) *(short*)d=*(short const*)s; else if (k==I32) *(int*)d=*(int const*)s; else *(long*)d=*(long const*)s;
}
// user: the program initialised MPI itself
static inline void setup(int size, int rounds, int user = 0) { state_=user_=user; buffer_=0; size_=size; last_=rounds-1; live_=0; world.n=size; for (int i=0;i<size;++i) world.r[i]=i;  nmsg_=0; nreq_=0; round_=0; rank_=0; ncoll_=0; bad_=0; npool_=0; all_=-1; seq_=-1;}
// every process has to take part in every collective operation
static inline void tally() { if (round_ != last_) return; if (all_ < 0) all_=seq_; else if (all_ != seq_) ++bad_;}
static inline void enter(int round, int rank)
{
  if (seq_ >= 0) tally();
  round_=round; rank_=rank; seq_=0; nsent_=0;
  if (rank==0) for (int i=0;i<nmsg_;++i) box_[i].taken=0;
}
// an unwaited request, a message nobody received, a mismatched collective or a datatype misuse
static inline int left() { int r=nreq_+bad_+live_+(user_ ? state_ != 1 || buffer_ : state_ != 2); for (int i=0;i<nmsg_;++i) if (!box_[i].taken) ++r; return r;}
// the records, at the end
static inline int done() { tally(); int r=left(); for (int i=0;i<nmsg_;++i) free(box_[i].data); for (int i=0;i<ncoll_;++i) free(coll_[i].data); return r;}
template <typename T> inline T fold(int k, T a, T b)
{
  switch (k) { case 1: return a && b; case 2: return (long)a & (long)b; case 3: return a || b; case 4: return (long)a | (long)b;
  case 5: return a + b; case 6: return b < a ? b : a; default: return a < b ? b : a;}
}
}
typedef mpiref::comm *MPI_Comm;
typedef mpiref::type const *MPI_Datatype;
typedef mpiref::group const *MPI_Group;
typedef mpiref::op const *MPI_Op;
typedef long MPI_Request;
typedef long MPI_Aint;
typedef int MPI_Errhandler;
struct MPI_Status { int x;};
#define MPI_COMM_NULL ((MPI_Comm)0)
#define MPI_COMM_WORLD (&mpiref::world)
#define MPI_GROUP_EMPTY (&mpiref::empty)
#define MPI_GROUP_NULL ((MPI_Group)0)
#define MPI_DATATYPE_NULL ((MPI_Datatype)0)
#define MPI_UNDEFINED -32766
#define MPI_BOTTOM ((void*)0)
#define MPI_SUCCESS 0
#define MPI_MAX_ERROR_STRING 64
#define MPI_IDENT 0
#define MPI_CONGRUENT 1
#define MPI_SIMILAR 2
#define MPI_UNEQUAL 3
#define MPI_ERRORS_RETURN 1
#define MPI_FLOAT (&mpiref::f32)
#define MPI_DOUBLE (&mpiref::f64)
#define MPI_LONG_DOUBLE (&mpiref::ld)
#define MPI_SIGNED_CHAR (&mpiref::s8)
#define MPI_CHAR (&mpiref::i8)
#define MPI_UNSIGNED_CHAR (&mpiref::u8)
#define MPI_BYTE (&mpiref::byte)
#define MPI_SHORT (&mpiref::i16)
#define MPI_UNSIGNED_SHORT (&mpiref::u16)
#define MPI_INT (&mpiref::i32)
#define MPI_UNSIGNED (&mpiref::u32)
#define MPI_LONG (&mpiref::i64)
#define MPI_UNSIGNED_LONG (&mpiref::u64)
#define MPI_LAND (&mpiref::land)
#define MPI_BAND (&mpiref::band)
#define MPI_LOR (&mpiref::lor)
#define MPI_BOR (&mpiref::bor)
#define MPI_SUM (&mpiref::sum)
#define MPI_MIN (&mpiref::min)
#define MPI_MAX (&mpiref::max)
#define MR static inline int
#ifndef MPIREF_FAIL
#define FAILS(X)
#else
// one entry point reports an error
namespace mpiref { static int fail_; enum { init = 0, rank, size, compare, barrier, dup, cfree, create, split, cgroup, incl, excl, gunion, ginter, gdiff, translate, grank, gsize, gfree, isend, bsend, recv, wait, bcast, allreduce, commit, vector, tstruct };}
#define FAILS(X) if (mpiref::fail_ == mpiref::X) return 5;
#endif
MR MPI_Comm_rank(MPI_Comm c, int *r) { FAILS(rank) using namespace mpiref; if (c == &world) { *r = rank_; return 0;} *r = MPI_UNDEFINED; for (int i=0;i<c->n;++i) if (c->r[i]==rank_) *r = i; return 0;}
MR MPI_Comm_size(MPI_Comm c, int *s) { FAILS(size) *s = c == &mpiref::world ? mpiref::size_ : c->n; return 0;}
MR MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *r) { FAILS(compare) mpiref::comm const *x = a, *y = b; *r = MPI_IDENT; if (a==b) return 0;
  int same = x->n==y->n; for (int i=0;i<x->n && same;++i) same = x->r[i]==y->r[i]; *r = same ? MPI_CONGRUENT : MPI_UNEQUAL; return 0;}
MR MPI_Barrier(MPI_Comm) { FAILS(barrier) ++mpiref::seq_; return 0;}
MR MPI_Type_commit(MPI_Datatype *t) { FAILS(commit) if (!*t) mpiref::fault(); return 0;}
MR MPI_Type_free(MPI_Datatype *t) { if (!*t) mpiref::fault(); else free((void*)*t); *t = MPI_DATATYPE_NULL; return 0;}
MR MPI_Get_address(const void *p, MPI_Aint *a) { *a = (MPI_Aint)p; return 0;}
MR MPI_Comm_dup(MPI_Comm c, MPI_Comm *d) { FAILS(dup) using namespace mpiref; comm *r = (comm*)malloc(sizeof(comm)); *r = *c; r->k = 2; ++live_; *d = r; return 0;}
MR MPI_Comm_free(MPI_Comm *c) { FAILS(cfree) using namespace mpiref; if (*c == MPI_COMM_NULL || (*c)->k != 2) { fault(); return 0;} (*c)->k = 3; --live_; free(*c); *c = MPI_COMM_NULL; return 0;}
MR MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm *d)
{
  FAILS(create) using namespace mpiref; *d = MPI_COMM_NULL;
  for (int i=0;i<g->n;++i) if (g->r[i]==rank_) { comm *r = (comm*)malloc(sizeof(comm)); r->k = 2; r->n = g->n; for (int j=0;j<g->n;++j) r->r[j]=g->r[j]; ++live_; *d = r;}
  return 0;
}
// the colours of all processes are in mpiref::color_, keys are ranks
MR MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *d)
{
  FAILS(split) using namespace mpiref; *d = MPI_COMM_NULL;
  if (color_[rank_] != color || (color != MPI_UNDEFINED && key != rank_)) fault();
  if (color == MPI_UNDEFINED) return 0;
  comm *r = (comm*)malloc(sizeof(comm)); r->k = 2; r->n = 0; for (int j=0;j<c->n;++j) if (color_[c->r[j]]==color) r->r[r->n++]=c->r[j];
  ++live_; *d = r; return 0;
}
static inline mpiref::group *group_new() { mpiref::group *r = (mpiref::group*)malloc(sizeof(mpiref::group)); r->n = 0; return r;}
static inline void group_add(mpiref::group *g, int p, bool in = true) { g->r[g->n] = p; g->n += in;}
MR group_put(mpiref::group *x, MPI_Group *g) { if (x->n == 0) { free(x); *g = MPI_GROUP_EMPTY;} else { ++mpiref::live_; *g = x;} return 0;}
MR group_at(MPI_Group g, int p) { for (int i=0;i<g->n;++i) if (g->r[i]==p) return i; return MPI_UNDEFINED;}
MR MPI_Comm_group(MPI_Comm c, MPI_Group *g) { FAILS(cgroup) mpiref::group *x = group_new(); for (int i=0;i<c->n;++i) group_add(x, c->r[i]); return group_put(x, g);}
MR MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0;}
MR MPI_Group_incl(MPI_Group g, int n, int const *k, MPI_Group *h) { FAILS(incl) mpiref::group *x = group_new(); for (int i=0;i<n;++i) group_add(x, g->r[k[i]]); return group_put(x, h);}
MR MPI_Group_excl(MPI_Group g, int n, int const *k, MPI_Group *h)
{
  FAILS(excl) mpiref::group *x = group_new();
  for (int i=0;i<g->n;++i) { bool in = true; for (int j=0;j<n;++j) in &= k[j]!=i; group_add(x, g->r[i], in);}
  return group_put(x, h);
}
MR MPI_Group_union(MPI_Group g, MPI_Group q, MPI_Group *h) { FAILS(gunion) mpiref::group *x = group_new(); for (int i=0;i<g->n;++i) group_add(x, g->r[i]); for (int i=0;i<q->n;++i) group_add(x, q->r[i], group_at(g, q->r[i])==MPI_UNDEFINED); return group_put(x, h);}
MR MPI_Group_intersection(MPI_Group g, MPI_Group q, MPI_Group *h) { FAILS(ginter) mpiref::group *x = group_new(); for (int i=0;i<g->n;++i) group_add(x, g->r[i], group_at(q, g->r[i])!=MPI_UNDEFINED); return group_put(x, h);}
MR MPI_Group_difference(MPI_Group g, MPI_Group q, MPI_Group *h) { FAILS(gdiff) mpiref::group *x = group_new(); for (int i=0;i<g->n;++i) group_add(x, g->r[i], group_at(q, g->r[i])==MPI_UNDEFINED); return group_put(x, h);}
MR MPI_Group_translate_ranks(MPI_Group g, int n, int const *k, MPI_Group q, int *o) { FAILS(translate) for (int i=0;i<n;++i) o[i]=group_at(q, g->r[k[i]]); return 0;}
MR MPI_Group_rank(MPI_Group g, int *r) { FAILS(grank) *r = group_at(g, mpiref::rank_); return 0;}
MR MPI_Group_size(MPI_Group g, int *n) { FAILS(gsize) *n = g->n; return 0;}
MR MPI_Group_free(MPI_Group *g) { FAILS(gfree) using namespace mpiref; if (*g == MPI_GROUP_EMPTY || *g == MPI_GROUP_NULL) { fault(); return 0;} --live_; free((void*)*g); *g = MPI_GROUP_NULL; return 0;}
MR MPI_Error_string(int c, char *s, int *n) { for (int i=0;i<c;++i) s[i] = 'e'; *n = c; return 0;}
MR MPI_Error_class(int c, int *k) { *k = c+1; return 0;}
MR MPI_Initialized(int *f) { *f = mpiref::state_ > 0; return 0;}
MR MPI_Finalized(int *f) { *f = mpiref::state_ > 1; return 0;}
MR MPI_Init(int *, char ***) { if (mpiref::state_) ++mpiref::bad_; mpiref::state_ = 1; return 0;}
MR MPI_Finalize() { if (mpiref::state_ != 1) ++mpiref::bad_; mpiref::state_ = 2; mpiref::buffer_ = 0; return 0;}
MR MPI_Buffer_attach(void *p, int n) { if (mpiref::buffer_ || mpiref::state_ != 1) ++mpiref::bad_; mpiref::buffer_ = p; mpiref::space_ = n; return 0;}
MR MPI_Buffer_detach(void *p, int *n) { if (!mpiref::buffer_ || mpiref::state_ != 1) ++mpiref::bad_; *(void**)p = mpiref::buffer_; *n = mpiref::space_; mpiref::buffer_ = 0; return 0;}
int MPI_Type_hvector(int, int, MPI_Aint, MPI_Datatype, MPI_Datatype *);
MR MPI_Type_contiguous(int c, MPI_Datatype o, MPI_Datatype *t)
{
  // kept for good: the library caches the types it builds this way
  using namespace mpiref; type *r = pool_ + npool_++; r->n=0; r->kind=o->kind; r->ext=c*o->ext;
  for (int i=0;i<c;++i) for (int k=0;k<o->n;++k) r->off[r->n++] = i*o->ext + o->off[k];
  *t = r; return 0;
}
MR MPI_Type_vector(int c, int l, int s, MPI_Datatype o, MPI_Datatype *t)
{
  FAILS(vector)
  using namespace mpiref; type *r = (type*)malloc(sizeof(type)); r->n=0; r->kind=o->kind; r->ext=0;
  for (int i=0;i<c;++i) for (int j=0;j<l;++j) for (int k=0;k<o->n;++k) r->off[r->n++] = (i*(long)s+j)*o->ext + o->off[k];
  *t = r; return 0;
}
MR MPI_Type_create_struct(int c, int const l[], MPI_Aint const d[], MPI_Datatype const o[], MPI_Datatype *t)
{
  FAILS(tstruct)
  using namespace mpiref; type *r = (type*)malloc(sizeof(type)); r->n=0; r->ext=0;
  for (int i=0;i<c;++i) { MPI_Datatype b = o[i]; r->kind=b->kind; for (int j=0;j<l[i];++j) for (int k=0;k<b->n;++k) r->off[r->n++] = d[i] + j*b->ext + b->off[k];}
  *t = r; return 0;
}
MR MPI_Isend(const void *p, int c, MPI_Datatype o, int dst, int, MPI_Comm, MPI_Request *q)
{
  FAILS(isend)
  using namespace mpiref;
  int s = nsent_++, j = 0;
  for (; j<nmsg_; ++j) if (box_[j].src == rank_ && box_[j].seq == s) break;
  msg &m = box_[j];
  if (j == nmsg_)
  {
    if (round_ == last_) { fault(); *q = 0; return 0;}
    ++nmsg_; m.src=rank_; m.seq=s; m.dst=dst; m.n=c*o->n; m.kind=o->kind; m.taken=0; m.data=malloc(8*c*o->n);
  }
  else if (m.dst != dst || m.n != c*o->n || m.kind != o->kind) { fault(); *q = 0; return 0;}
  ++nreq_; *q = j+1; m.from = p;
  for (int i=0;i<c;++i) for (int k=0;k<o->n;++k) m.off[i*o->n+k] = i*o->ext + o->off[k];
  return 0;
}
// what is in the buffer when the request completes is what is sent: it has to stay alive and unchanged until then
MR MPI_Wait(MPI_Request *q, MPI_Status *)
{
  FAILS(wait)
  using namespace mpiref;
  if (!*q) { fault(); return 0;}
  msg &m = box_[*q-1]; --nreq_; *q = 0;
  for (int i=0;i<m.n;++i) cp(m.kind, (char*)m.data+i*ksize(m.kind), at(m.from, m.off[i]));
  return 0;
}
MR MPI_Bsend(const void *p, int c, MPI_Datatype o, int dst, int t, MPI_Comm w) { FAILS(bsend) if (!mpiref::buffer_) mpiref::fault(); MPI_Request r; MPI_Isend(p,c,o,dst,t,w,&r); return r ? MPI_Wait(&r,0) : 0;}
MR MPI_Recv(void *p, int c, MPI_Datatype o, int src, int, MPI_Comm, MPI_Status *)
{
  FAILS(recv)
  using namespace mpiref;
  if (!round_) return 0;
  for (int j=0;j<nmsg_;++j)
  {
    msg &m = box_[j];
    if (m.taken || m.src != src || m.dst != rank_) continue;
    if (m.kind != o->kind || m.n != c*o->n) { fault(); return 0;}
    m.taken = 1;
    for (int i=0;i<c;++i) for (int k=0;k<o->n;++k) cp(o->kind, at(p, i*o->ext + o->off[k]), (char*)m.data+(i*o->n+k)*ksize(o->kind));
    return 0;
  }
  fault(); return 0;
}
MR MPI_Bcast(void *p, int c, MPI_Datatype o, int root, MPI_Comm)
{
  FAILS(bcast)
  using namespace mpiref; int s = seq_++, n = c*o->n*ksize(o->kind);
  coll *e = 0; for (int j=0;j<ncoll_;++j) if (coll_[j].seq==s && coll_[j].rank==root) e = coll_+j;
  if (rank_ == root)
  {
    if (!e) { e = coll_+ncoll_++; e->kind=1; e->seq=s; e->root=root; e->rank=rank_; e->n=n; e->data=malloc(8*c*o->n);}
    else if (e->kind != 1 || e->n != n) fault();
    for (int i=0;i<c;++i) for (int k=0;k<o->n;++k) cp(o->kind, (char*)e->data+(i*o->n+k)*ksize(o->kind), at(p, i*o->ext + o->off[k]));
  }
  else if (e)
  {
    if (e->kind != 1 || e->n != n) { fault(); return 0;}
    for (int i=0;i<c;++i) for (int k=0;k<o->n;++k) cp(o->kind, at(p, i*o->ext + o->off[k]), (char*)e->data+(i*o->n+k)*ksize(o->kind));
  }
  else
  {
    fault(); // nobody broadcast
    memset(p, 0, n);
  }
  return 0;
}
MR MPI_Allreduce(const void *p, void *q, int c, MPI_Datatype o, MPI_Op op, MPI_Comm)
{
  FAILS(allreduce)
  using namespace mpiref; int s = seq_++;
  if (c != 1 || o->n != 1) { fault(); return 0;}
  coll *e = 0; for (int j=0;j<ncoll_;++j) if (coll_[j].seq==s && coll_[j].rank==rank_) e = coll_+j;
  if (!e) { e = coll_+ncoll_++; e->kind=2; e->seq=s; e->root=op->k; e->rank=rank_; e->n=o->kind; e->data=malloc(8);}
  else if (e->kind != 2 || e->root != op->k || e->n != o->kind) fault();
  cp(o->kind, e->data, p);
  cp(o->kind, q, p);
  if (!round_) return 0;
  bool first = true;
  for (int r=0;r<size_;++r)
  {
    coll *f = 0; for (int j=0;j<ncoll_;++j) if (coll_[j].seq==s && coll_[j].rank==r) f = coll_+j;
    if (!f || f->kind != 2 || f->root != op->k || f->n != o->kind) { fault(); return 0;}
    if (first) cp(o->kind, q, f->data);
    else if (o->kind==F32) *(float*)q = fold(op->k, *(float*)q, *(float*)f->data);
    else if (o->kind==F64) *(double*)q = fold(op->k, *(double*)q, *(double*)f->data);
    else if (o->kind==I32) *(int*)q = fold(op->k, *(int*)q, *(int*)f->data);
    else if (o->kind==I8) *(unsigned char*)q = fold(op->k, *(unsigned char*)q, *(unsigned char*)f->data);
    else if (o->kind==I64) *(long*)q = fold(op->k, *(long*)q, *(long*)f->data);
    else fault();
    first = false;
  }
  return 0;
}
