// Simulated MPI: implements the MPI C API (Open MPI 4 ABI) on top of the simulator core.
// Every delivery, match, transfer, completion order and collective exit is a decision of the scheduler.
#include "core.hh"
#include "mpi_sim.hh"
#include <mpi.h>
#include <algorithm>
#include <complex>
#include <deque>
#include <memory>
#include <set>
#include <climits>

using namespace sim;

enum Kind : int { K_CHAR, K_SCHAR, K_UCHAR, K_BYTE, K_SHORT, K_USHORT, K_INT, K_UINT, K_LONG, K_ULONG, K_LLONG, K_ULLONG, K_FLOAT, K_DOUBLE, K_LDOUBLE, K_PACKED, K_BOOL, K_CFLOAT, K_CDOUBLE, K_CLDOUBLE, K_2INT, K_DOUBLE_INT, K_FLOAT_INT, K_LONG_INT, K_SHORT_INT, K_LDOUBLE_INT, K_WCHAR, K_NULL };

struct Seg { ptrdiff_t off; size_t len; int kind; };
struct DType { size_t size; ptrdiff_t lb, extent; std::vector<Seg> segs; bool predefined; bool committed; int kind; };

struct CommObj { int id; std::vector<int> group; std::vector<u64> collSeq; int myIndex(int world) const { for (size_t i = 0; i < group.size(); ++i) if (group[i] == world) return (int)i; return -1; } };

// predefined handles -------------------------------------------------------------------------------
// Open MPI's predefined handles are addresses of these objects.
struct ompi_predefined_communicator_t { CommObj* c; };
struct ompi_predefined_datatype_t { DType* d; int kind; size_t size; };
struct ompi_predefined_op_t { int op; };
struct ompi_predefined_request_t { int x; };
struct ompi_predefined_message_t { int x; };
struct ompi_predefined_group_t { int x; };
struct ompi_predefined_errhandler_t { int x; };
struct ompi_predefined_win_t { int x; };
struct ompi_predefined_file_t { int x; };
struct ompi_predefined_info_t { int x; };

struct ompi_communicator_t { CommObj* c; bool freed = false; };
struct ompi_datatype_t { DType* d; int kind; size_t size; bool freed = false; };
struct ompi_op_t { int op; MPI_User_function* fn; int commute; };
enum { OP_NULL, OP_MIN, OP_MAX, OP_SUM, OP_PROD, OP_LAND, OP_BAND, OP_LOR, OP_BOR, OP_LXOR, OP_BXOR, OP_MAXLOC, OP_MINLOC, OP_REPLACE, OP_NOOP, OP_USER };

extern "C" {
ompi_predefined_communicator_t ompi_mpi_comm_world{}, ompi_mpi_comm_self{}, ompi_mpi_comm_null{};
ompi_predefined_request_t ompi_request_null{};
ompi_predefined_message_t ompi_message_null{}, ompi_message_no_proc{};
ompi_predefined_group_t ompi_mpi_group_empty{}, ompi_mpi_group_null{};
ompi_predefined_errhandler_t ompi_mpi_errhandler_null{}, ompi_mpi_errors_are_fatal{}, ompi_mpi_errors_return{};
ompi_predefined_info_t ompi_mpi_info_null{}, ompi_mpi_info_env{};
ompi_predefined_win_t ompi_mpi_win_null{}; ompi_predefined_file_t ompi_mpi_file_null{};
#define OPDEF(n, v) ompi_predefined_op_t ompi_mpi_op_##n{v};
OPDEF(null, OP_NULL) OPDEF(min, OP_MIN) OPDEF(max, OP_MAX) OPDEF(sum, OP_SUM) OPDEF(prod, OP_PROD) OPDEF(land, OP_LAND) OPDEF(band, OP_BAND) OPDEF(lor, OP_LOR) OPDEF(bor, OP_BOR) OPDEF(lxor, OP_LXOR) OPDEF(bxor, OP_BXOR) OPDEF(maxloc, OP_MAXLOC) OPDEF(minloc, OP_MINLOC) OPDEF(replace, OP_REPLACE) OPDEF(no_op, OP_NOOP)
struct di_t { double d; int i; }; struct fi_t { float f; int i; }; struct li_t { long l; int i; }; struct si_t { short s; int i; }; struct ldi_t { long double d; int i; };
#define DT(n, k, s) ompi_predefined_datatype_t ompi_mpi_##n{nullptr, k, s};
DT(datatype_null, K_NULL, 0)
DT(char, K_CHAR, 1) DT(signed_char, K_SCHAR, 1) DT(unsigned_char, K_UCHAR, 1) DT(byte, K_BYTE, 1) DT(short, K_SHORT, 2) DT(unsigned_short, K_USHORT, 2) DT(int, K_INT, 4) DT(unsigned, K_UINT, 4) DT(long, K_LONG, 8) DT(unsigned_long, K_ULONG, 8) DT(long_long_int, K_LLONG, 8) DT(unsigned_long_long, K_ULLONG, 8) DT(float, K_FLOAT, 4) DT(double, K_DOUBLE, 8) DT(long_double, K_LDOUBLE, 16) DT(packed, K_PACKED, 1) DT(wchar, K_WCHAR, 4)
DT(cxx_bool, K_BOOL, 1) DT(c_bool, K_BOOL, 1) DT(cxx_cplex, K_CFLOAT, 8) DT(cxx_dblcplex, K_CDOUBLE, 16) DT(cxx_ldblcplex, K_CLDOUBLE, 32) DT(c_float_complex, K_CFLOAT, 8) DT(c_double_complex, K_CDOUBLE, 16) DT(c_long_double_complex, K_CLDOUBLE, 32)
DT(2int, K_2INT, 8) DT(double_int, K_DOUBLE_INT, sizeof(di_t)) DT(float_int, K_FLOAT_INT, 8) DT(long_int, K_LONG_INT, 16) DT(short_int, K_SHORT_INT, 8) DT(longdbl_int, K_LDOUBLE_INT, 32)
DT(int8_t, K_SCHAR, 1) DT(uint8_t, K_UCHAR, 1) DT(int16_t, K_SHORT, 2) DT(uint16_t, K_USHORT, 2) DT(int32_t, K_INT, 4) DT(uint32_t, K_UINT, 4) DT(int64_t, K_LONG, 8) DT(uint64_t, K_ULONG, 8) DT(aint, K_LONG, 8) DT(offset, K_LONG, 8) DT(count, K_LONG, 8)
}

// --------------------------------------------------------------------------------------------------
struct Msg;
struct ompi_request_t {
  enum Type { SEND, RECV, COLL } type; int owner; CommObj* comm; int peer, tag; // comm-local peer
  void* buf; const void* sbuf; size_t count; DType* dt;
  bool persistent = false, active = false, complete = false, sync = false, freed = false, cancelled = false;
  Msg* msg = nullptr; MPI_Status st{}; u64 sum = 0; u64 completedAt = 0;
  std::function<bool()> collReady; std::function<void()> collFinish;
};
typedef ompi_request_t Req;
struct ompi_message_t { Msg* m; };
struct Msg {
  int src, dst; CommObj* comm; int tag; int csrc; size_t bytes; std::vector<char> data; bool eager; Req* sreq; // sreq: sender's pending request (rendezvous)
  std::vector<std::pair<int, size_t>> sig; // run-length type signature
  u64 seq; u64 sentAt; bool matched = false; int passed = 0; Req* rreq = nullptr; u64 deliveredAt = 0;
};

static void expandSig(const DType* d, size_t count, std::vector<std::pair<int, size_t>>& out) {
  for (size_t c = 0; c < count; ++c) {
    if (d->segs.size() == 1 && c == 0) { size_t ks = d->segs[0].len * count; if (!out.empty() && out.back().first == d->segs[0].kind) out.back().second += ks; else out.push_back({d->segs[0].kind, ks}); return; }
    for (auto& s : d->segs) { if (!out.empty() && out.back().first == s.kind) out.back().second += s.len; else out.push_back({s.kind, s.len}); }
    if (out.size() > 4096) return;
  }
}

static void packTo(const DType* d, const void* buf, size_t count, std::vector<char>& out) {
  out.resize(d->size * count); char* o = out.data();
  const char* b = (const char*)buf;
  if (d->segs.size() == 1 && d->segs[0].off == 0 && (ptrdiff_t)d->segs[0].len == d->extent) { if (!out.empty()) memcpy(o, b, out.size()); return; }
  for (size_t c = 0; c < count; ++c) for (auto& s : d->segs) { memcpy(o, b + (ptrdiff_t)c * d->extent + s.off, s.len); o += s.len; }
}
static void unpackFrom(const DType* d, void* buf, size_t count, const char* in, size_t bytes) {
  char* b = (char*)buf;
  if (d->segs.size() == 1 && d->segs[0].off == 0 && (ptrdiff_t)d->segs[0].len == d->extent) { if (bytes) memcpy(b, in, bytes); return; }
  for (size_t c = 0; c < count; ++c) for (auto& s : d->segs) { if (bytes == 0) return; size_t l = std::min(bytes, s.len); memcpy(b + (ptrdiff_t)c * d->extent + s.off, in, l); in += l; bytes -= l; }
}
static u64 sumOf(const DType* d, const void* buf, size_t count) {
  u64 h = 1469598103934665603ull; const char* b = (const char*)buf;
  auto eat = [&](const char* p, size_t n) { for (size_t i = 0; i < n; ++i) { h ^= (unsigned char)p[i]; h *= 1099511628211ull; } };
  for (size_t c = 0; c < count; ++c) for (auto& s : d->segs) eat(b + (ptrdiff_t)c * d->extent + s.off, s.len);
  return h;
}

struct Coll {
  const char* name; int type; CommObj* comm; u64 seq; int n; int root; int arrived = 0; int left = 0; bool forceSync; int nrank;
  std::vector<char> here; std::vector<std::vector<char>> send; std::vector<std::vector<size_t>> cnt; // per-rank bytes destined to each rank (alltoallv/scatterv)
  std::vector<u64> sig; std::vector<int> perm; bool permSet = false; size_t count; int opk = 0;
  std::map<long long, CommObj*> split; std::vector<std::pair<int, int>> ck; bool splitDone = false;
};

struct RankState { bool inited = false, finalized = false; std::set<Req*> reqs; unsigned randState = 1; i64 clockSkewNs = 0; u64 clockReads = 0; int typesAlive = 0, commsAlive = 0; };

struct MpiSim : ActionSource {
  int n = 0; CommObj world; std::vector<CommObj*> selfs; int nextComm = 10; std::vector<CommObj*> comms;
  std::map<std::tuple<int, int, int>, std::deque<Msg*>> inflight; // (comm,src,dst)
  std::vector<std::map<int, std::deque<Msg*>>> unexpected;         // [dst][comm]
  std::vector<std::map<int, std::deque<Req*>>> posted;             // [dst][comm]
  std::vector<Msg*> transfers; u64 seq = 0, delivered = 0;
  std::map<std::pair<int, u64>, Coll*> colls;
  std::vector<RankState> rs;
  int sendMode = 0; int eagerLimit = 0; int collSyncPermille = 0; int lateTransfer = 0; bool clockFaults = false, redOrder = false;
  std::map<std::pair<int, int>, u64> lastDeliverSeqPerDst; std::vector<u64> lastSeqDelivered;
  void list(std::vector<NetAction>& out) override;
  void describe(std::string& s) override;
  void deliver(Msg* m); void transfer(Msg* m); void match(Msg* m, Req* r);
};
static MpiSim* M = nullptr;

void MpiSim::list(std::vector<NetAction>& out) {
  for (auto it = inflight.begin(); it != inflight.end(); ++it) {
    if (it->second.empty()) continue;
    Msg* m = it->second.front();
    NetAction a; a.key = mix64((u64)std::get<0>(it->first) * 1000003 + std::get<1>(it->first) * 1009 + std::get<2>(it->first) + 7); a.since = m->sentAt; a.run = [this, m] { deliver(m); }; out.push_back(a);
  }
  for (Msg* m : transfers) { NetAction a; a.key = mix64((u64)m->comm->id * 1000003 + m->src * 1009 + m->dst + 99991); a.since = m->sentAt; a.run = [this, m] { transfer(m); }; out.push_back(a); }
}
void MpiSim::describe(std::string& s) {
  char b[200];
  for (int d = 0; d < n; ++d) {
    for (auto& p : unexpected[d]) for (Msg* m : p.second) { snprintf(b, sizeof b, "unreceived message %d->%d tag %d comm %d (%zu bytes); ", m->src, m->dst, m->tag, p.first, m->bytes); if (s.size() < 3000) s += b; }
    for (auto& p : posted[d]) for (Req* r : p.second) { snprintf(b, sizeof b, "unmatched receive on %d from %d tag %d comm %d; ", d, r->peer, r->tag, p.first); if (s.size() < 3000) s += b; }
  }
  for (auto& c : colls) if (c.second->arrived < c.second->n) { snprintf(b, sizeof b, "collective %s #%llu on comm %d: %d of %d entered; ", c.second->name, (unsigned long long)c.first.second, c.first.first, c.second->arrived, c.second->n); if (s.size() < 3600) s += b; }
}

static inline int me() { return tls_task ? tls_task->id : 0; }
static inline bool inTask() { return tls_task != nullptr; }
static void need(bool c, const char* what) { if (!c) E->violation("mpi-misuse", "invalid MPI usage on rank %d: %s", me(), what); }

static CommObj* C(MPI_Comm c, const char* fn) {
  if ((void*)c == (void*)&ompi_mpi_comm_world) return &M->world;
  if ((void*)c == (void*)&ompi_mpi_comm_self) return M->selfs[me()];
  if ((void*)c == (void*)&ompi_mpi_comm_null || !c) E->violation("mpi-misuse", "rank %d: %s on MPI_COMM_NULL", me(), fn);
  if (c->freed) E->violation("mpi-misuse", "rank %d: %s on a communicator that was freed", me(), fn);
  return c->c;
}
static int crank(CommObj* c, const char* fn) { int r = c->myIndex(me()); if (r < 0) E->violation("mpi-misuse", "rank %d: %s on a communicator it does not belong to", me(), fn); return r; }
static DType* D(MPI_Datatype t, const char* fn) {
  if (!t || t->kind == K_NULL) E->violation("mpi-misuse", "rank %d: %s with MPI_DATATYPE_NULL", me(), fn);
  if (t->freed) E->violation("mpi-misuse", "rank %d: %s with a datatype that was freed", me(), fn);
  if (!t->d) { DType* d = new DType{t->size, 0, (ptrdiff_t)t->size, {Seg{0, t->size, t->kind}}, true, true, t->kind}; t->d = d; }
  return t->d;
}
static void okType(DType* d, const char* fn) { if (!d->committed) E->violation("mpi-misuse", "rank %d: %s with an uncommitted datatype", me(), fn); }
static void setStatus(MPI_Status* st, int src, int tag, size_t bytes) { if (st) { st->MPI_SOURCE = src; st->MPI_TAG = tag; st->_ucount = bytes; st->_cancelled = 0; /* MPI_ERROR is only set by multi-completion calls */ } }
static void emptyStatus(MPI_Status* st) { setStatus(st, MPI_ANY_SOURCE, MPI_ANY_TAG, 0); if (st) st->MPI_ERROR = MPI_SUCCESS; }

void MpiSim::match(Msg* m, Req* r) {
  m->matched = true; m->rreq = r; r->msg = m;
  if (m->bytes > r->count * r->dt->size) E->violation("mpi-truncation", "message of %zu bytes from rank %d to rank %d (tag %d) does not fit the posted receive of %zu bytes", m->bytes, m->src, m->dst, m->tag, r->count * r->dt->size);
  // type signature of the message must be a prefix of the receive's
  std::vector<std::pair<int, size_t>> rsig; expandSig(r->dt, r->count, rsig);
  size_t i = 0, j = 0, ui = 0, uj = 0; bool ok = true; bool wild = false;
  for (auto& p : m->sig) if (p.first == K_PACKED) wild = true;
  for (auto& p : rsig) if (p.first == K_PACKED) wild = true;
  while (!wild && i < m->sig.size()) {
    if (j >= rsig.size()) { ok = m->sig.size() > 4000; break; }
    if (m->sig[i].first != rsig[j].first) { ok = false; break; }
    size_t a = m->sig[i].second - ui, b = rsig[j].second - uj, c = std::min(a, b);
    ui += c; uj += c; if (ui == m->sig[i].second) { ++i; ui = 0; } if (uj == rsig[j].second) { ++j; uj = 0; }
  }
  if (!ok) E->violation("mpi-type-mismatch", "datatype of message %d->%d tag %d does not match the receive's datatype", m->src, m->dst, m->tag);
  E->evSched(mix64(m->src * 131 + m->dst * 17 + m->tag)); E->ev(1, (u64)m->src << 32 | (u64)m->dst, (u64)m->tag << 32 | m->bytes);
  E->log("match %d->%d tag %d comm %d %zu bytes%s", m->src, m->dst, m->tag, m->comm->id, m->bytes, m->eager ? " eager" : "");
  transfers.push_back(m);
}
void MpiSim::transfer(Msg* m) {
  transfers.erase(std::find(transfers.begin(), transfers.end(), m));
  Req* r = m->rreq;
  if (!m->eager) {
    Req* s = m->sreq;
    if (sumOf(s->dt, s->sbuf, s->count) != s->sum) E->violation("send-buffer-modified", "rank %d modified the buffer of a pending send (to rank %d, tag %d) before it completed", m->src, m->dst, m->tag);
    packTo(s->dt, s->sbuf, s->count, m->data);
    s->complete = true; s->completedAt = E->shm->steps;
    if (s->freed) { rs[s->owner].reqs.erase(s); delete s; }
  }
  unpackFrom(r->dt, r->buf, r->count, m->data.data(), m->bytes);
  if (m->sig.empty() || (m->sig[0].first != K_BYTE && m->sig[0].first != K_PACKED)) E->evBytes(m->data.data(), m->bytes);
  r->complete = true; r->completedAt = E->shm->steps;
  setStatus(&r->st, m->csrc, m->tag, m->bytes); r->st.MPI_ERROR = MPI_SUCCESS;
  E->log("transfer %d->%d tag %d", m->src, m->dst, m->tag);
  delete m;
}
static bool tagOk(Req* r, Msg* m) { return (r->peer == MPI_ANY_SOURCE || r->peer == m->csrc) && (r->tag == MPI_ANY_TAG || r->tag == m->tag); }
void MpiSim::deliver(Msg* m) {
  auto& q = inflight[std::make_tuple(m->comm->id, m->src, m->dst)];
  q.pop_front();
  m->deliveredAt = ++delivered;
  if (lastSeqDelivered[m->dst] > m->seq) E->fault("msg-reordered"); else lastSeqDelivered[m->dst] = m->seq;
  u64 age = E->shm->steps - m->sentAt;
  if (age > 60) E->fault("msg-delayed");
  E->evSched(mix64(m->src * 7 + m->dst * 3 + 1)); E->log("deliver %d->%d tag %d (age %llu)", m->src, m->dst, m->tag, (unsigned long long)age);
  auto& pq = posted[m->dst][m->comm->id];
  for (auto it = pq.begin(); it != pq.end(); ++it) if (tagOk(*it, m)) { Req* r = *it; pq.erase(it); match(m, r); return; }
  unexpected[m->dst][m->comm->id].push_back(m);
}

// ---------------------------------------------------------------- point to point
static void ycall(const char* fn) { E->yield(fn); }

static void startSend(Req* r) {
  CommObj* c = r->comm; int rank = r->owner;
  r->active = true; r->complete = false;
  if (r->peer == MPI_PROC_NULL) { r->complete = true; emptyStatus(&r->st); return; }
  Msg* m = new Msg{}; m->src = rank; m->dst = c->group[r->peer]; m->comm = c; m->tag = r->tag; m->csrc = c->myIndex(rank); m->bytes = r->dt->size * r->count; m->seq = ++M->seq; m->sentAt = E->shm->steps;
  expandSig(r->dt, r->count, m->sig);
  bool eager = false;
  if (!r->sync) {
    int lim = M->eagerLimit;
    if (M->sendMode == 0) eager = true; else if (M->sendMode == 1) eager = false; else if (M->sendMode == 2) eager = (int)m->bytes <= lim;
    else eager = E->choice(2, [&]() -> u32 { return E->rng.below(2); }) == 0;
    E->fault(eager ? "send-eager" : "send-rendezvous");
  }
  m->eager = eager;
  if (eager) { packTo(r->dt, r->sbuf, r->count, m->data); r->complete = true; r->completedAt = E->shm->steps; m->sreq = nullptr; }
  else { r->sum = sumOf(r->dt, r->sbuf, r->count); m->sreq = r; }
  r->msg = m;
  E->ev(2, (u64)m->src << 32 | (u64)m->dst, (u64)m->tag << 32 | m->bytes);
  E->log("send %d->%d tag %d comm %d %zu bytes%s", m->src, m->dst, m->tag, c->id, m->bytes, r->sync ? " sync" : eager ? " eager" : " rendezvous");
  M->inflight[std::make_tuple(c->id, m->src, m->dst)].push_back(m);
}
static void startRecv(Req* r) {
  r->active = true; r->complete = false; r->msg = nullptr;
  if (r->peer == MPI_PROC_NULL) { r->complete = true; setStatus(&r->st, MPI_PROC_NULL, MPI_ANY_TAG, 0); return; }
  auto& uq = M->unexpected[r->owner][r->comm->id];
  // candidates: the first matching message of every source
  std::vector<Msg*> cand; std::set<int> seen;
  for (Msg* m : uq) if (tagOk(r, m) && !seen.count(m->src)) { cand.push_back(m); seen.insert(m->src); }
  E->log("recv posted on %d from %d tag %d comm %d", r->owner, r->peer, r->tag, r->comm->id);
  if (!cand.empty()) {
    u32 k = 0;
    if (cand.size() > 1) { k = E->choice((u32)cand.size(), [&]() -> u32 { return E->rng.below((u32)cand.size()); }); E->fault("any-source-choice"); }
    Msg* m = cand[k]; uq.erase(std::find(uq.begin(), uq.end(), m)); M->match(m, r); return;
  }
  M->posted[r->owner][r->comm->id].push_back(r);
}
static Req* mkReq(Req::Type t, void* buf, int count, MPI_Datatype dt, int peer, int tag, MPI_Comm comm, const char* fn) {
  CommObj* c = C(comm, fn); crank(c, fn); DType* d = D(dt, fn); okType(d, fn);
  if (count < 0) E->violation("mpi-misuse", "rank %d: %s with negative count %d", me(), fn, count);
  bool any = t == Req::RECV && peer == MPI_ANY_SOURCE;
  if (!any && peer != MPI_PROC_NULL && (peer < 0 || peer >= (int)c->group.size())) E->violation("mpi-misuse", "rank %d: %s with invalid peer rank %d", me(), fn, peer);
  if (tag < 0 && !(t == Req::RECV && tag == MPI_ANY_TAG)) E->violation("mpi-misuse", "rank %d: %s with invalid tag %d", me(), fn, tag);
  Req* r = new Req{}; r->type = t; r->owner = me(); r->comm = c; r->peer = peer; r->tag = tag; r->buf = buf; r->sbuf = buf; r->count = (size_t)count; r->dt = d;
  // overlapping pending buffers on one rank are erroneous
  size_t bytes = d->size * (size_t)count;
  if (bytes && d->segs.size() == 1 && (ptrdiff_t)d->size == d->extent)
    for (Req* o : M->rs[me()].reqs) {
      if (o->type == Req::COLL || !o->active || o->complete || (o->type == Req::SEND && t == Req::SEND)) continue;
      if (o->dt->segs.size() != 1 || (ptrdiff_t)o->dt->size != o->dt->extent) continue;
      const char* a = (const char*)buf; const char* b = (const char*)o->buf; size_t ob = o->dt->size * o->count;
      if (ob && a < b + ob && b < a + bytes) E->violation("mpi-buffer-overlap", "rank %d: %s uses a buffer that overlaps the buffer of another pending request", me(), fn);
    }
  M->rs[me()].reqs.insert(r);
  return r;
}
static void dropReq(Req* r) { M->rs[r->owner].reqs.erase(r); delete r; }
static bool isNull(MPI_Request r) { return r == MPI_REQUEST_NULL || r == nullptr; }
static bool inactive(Req* r) { return r->persistent && !r->active; }
static bool reqDone(Req* r) { if (r->type == Req::COLL) return r->complete || r->collReady(); return r->complete; }
// consume a completed request
static void consume(MPI_Request* pr, MPI_Status* st) {
  Req* r = *pr;
  if (r->type == Req::COLL && !r->complete) { r->collFinish(); r->complete = true; }
  if (st) { if (r->type == Req::RECV) { st->MPI_SOURCE = r->st.MPI_SOURCE; st->MPI_TAG = r->st.MPI_TAG; st->_ucount = r->st._ucount; st->_cancelled = r->cancelled; } else emptyStatus(st), st->_cancelled = r->cancelled; }
  if (r->persistent) { r->active = false; } else { dropReq(r); *pr = MPI_REQUEST_NULL; }
}
static void checkReq(MPI_Request r, const char* fn) { if (!isNull(r) && !M->rs[me()].reqs.count(r)) E->violation("mpi-misuse", "rank %d: %s on an invalid or already freed request", me(), fn); }

static int doWait(MPI_Request* r, MPI_Status* st, const char* fn) {
  if (isNull(*r)) { emptyStatus(st); return MPI_SUCCESS; }
  checkReq(*r, fn);
  if (inactive(*r)) { emptyStatus(st); return MPI_SUCCESS; }
  Req* q = *r;
  if (tls_task) snprintf(tls_task->detail, sizeof tls_task->detail, "(%s peer %d tag %d)", q->type == Req::SEND ? "send" : q->type == Req::RECV ? "recv" : "coll", q->peer, q->tag);
  E->block(fn, [q] { return reqDone(q); });
  consume(r, st);
  return MPI_SUCCESS;
}

extern "C" {
int MPI_Init(int*, char***) { M->rs[me()].inited = true; return MPI_SUCCESS; }
int MPI_Init_thread(int*, char***, int, int* p) { M->rs[me()].inited = true; *p = MPI_THREAD_SINGLE; return MPI_SUCCESS; }
int MPI_Initialized(int* f) { *f = 1; return MPI_SUCCESS; }
int MPI_Finalized(int* f) { *f = M->rs[me()].finalized; return MPI_SUCCESS; }
int MPI_Finalize(void) { M->rs[me()].finalized = true; return MPI_SUCCESS; }
int MPI_Abort(MPI_Comm, int code) { E->violation("mpi-abort", "rank %d called MPI_Abort(%d)", me(), code); }
int MPI_Comm_rank(MPI_Comm c, int* r) { *r = crank(C(c, "MPI_Comm_rank"), "MPI_Comm_rank"); return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm c, int* r) { *r = (int)C(c, "MPI_Comm_size")->group.size(); return MPI_SUCCESS; }
int MPI_Error_string(int, char* s, int* l) { strcpy(s, "simulated MPI error"); *l = (int)strlen(s); return MPI_SUCCESS; }
int MPI_Error_class(int c, int* k) { *k = c; return MPI_SUCCESS; }
int MPI_Comm_create_errhandler(MPI_Comm_errhandler_function*, MPI_Errhandler* h) { *h = MPI_ERRORS_RETURN; return MPI_SUCCESS; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return MPI_SUCCESS; }
int MPI_Errhandler_free(MPI_Errhandler* h) { *h = MPI_ERRHANDLER_NULL; return MPI_SUCCESS; }
int MPI_Get_processor_name(char* s, int* l) { strcpy(s, "sim"); *l = 3; return MPI_SUCCESS; }
int MPI_Get_address(const void* p, MPI_Aint* a) { *a = (MPI_Aint)p; return MPI_SUCCESS; }
MPI_Comm MPI_Comm_f2c(MPI_Fint) { return MPI_COMM_WORLD; }
int MPI_Query_thread(int* p) { *p = MPI_THREAD_SINGLE; return MPI_SUCCESS; }

int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
  ycall("MPI_Send"); Req* r = mkReq(Req::SEND, (void*)b, n, t, d, tag, c, "MPI_Send"); startSend(r); MPI_Request q = r; return doWait(&q, nullptr, "MPI_Send"); }
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
  ycall("MPI_Ssend"); Req* r = mkReq(Req::SEND, (void*)b, n, t, d, tag, c, "MPI_Ssend"); r->sync = true; startSend(r); MPI_Request q = r; return doWait(&q, nullptr, "MPI_Ssend"); }
int MPI_Rsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return MPI_Send(b, n, t, d, tag, c); }
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* q) {
  ycall("MPI_Isend"); *q = mkReq(Req::SEND, (void*)b, n, t, d, tag, c, "MPI_Isend"); startSend(*q); return MPI_SUCCESS; }
int MPI_Issend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* q) {
  ycall("MPI_Issend"); *q = mkReq(Req::SEND, (void*)b, n, t, d, tag, c, "MPI_Issend"); (*q)->sync = true; startSend(*q); return MPI_SUCCESS; }
int MPI_Irecv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request* q) {
  ycall("MPI_Irecv"); *q = mkReq(Req::RECV, b, n, t, s, tag, c, "MPI_Irecv"); startRecv(*q); return MPI_SUCCESS; }
int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status* st) {
  ycall("MPI_Recv"); Req* r = mkReq(Req::RECV, b, n, t, s, tag, c, "MPI_Recv"); startRecv(r); MPI_Request q = r; return doWait(&q, st, "MPI_Recv"); }
int MPI_Send_init(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* q) { *q = mkReq(Req::SEND, (void*)b, n, t, d, tag, c, "MPI_Send_init"); (*q)->persistent = true; return MPI_SUCCESS; }
int MPI_Ssend_init(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* q) { *q = mkReq(Req::SEND, (void*)b, n, t, d, tag, c, "MPI_Ssend_init"); (*q)->persistent = (*q)->sync = true; return MPI_SUCCESS; }
int MPI_Recv_init(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request* q) { *q = mkReq(Req::RECV, b, n, t, s, tag, c, "MPI_Recv_init"); (*q)->persistent = true; return MPI_SUCCESS; }
int MPI_Start(MPI_Request* r) { ycall("MPI_Start"); checkReq(*r, "MPI_Start"); need(!isNull(*r) && (*r)->persistent && !(*r)->active, "MPI_Start on a request that is not an inactive persistent request"); if ((*r)->type == Req::SEND) startSend(*r); else startRecv(*r); return MPI_SUCCESS; }
int MPI_Startall(int n, MPI_Request* r) { for (int i = 0; i < n; ++i) MPI_Start(r + i); return MPI_SUCCESS; }
int MPI_Request_free(MPI_Request* r) {
  if (isNull(*r)) return MPI_SUCCESS; checkReq(*r, "MPI_Request_free");
  Req* q = *r; if (q->active && !q->complete) { if (q->type == Req::RECV) E->violation("mpi-misuse", "rank %d frees a receive request that is still pending", me()); q->freed = true; q->persistent = false; } else dropReq(q);
  *r = MPI_REQUEST_NULL; return MPI_SUCCESS; }
int MPI_Cancel(MPI_Request* r) {
  checkReq(*r, "MPI_Cancel"); Req* q = *r;
  if (q->active && !q->complete && q->type == Req::RECV && !q->msg) { auto& pq = M->posted[q->owner][q->comm->id]; auto it = std::find(pq.begin(), pq.end(), q); if (it != pq.end()) { pq.erase(it); q->complete = true; q->cancelled = true; } }
  return MPI_SUCCESS; }
int MPI_Test_cancelled(const MPI_Status* s, int* f) { *f = s->_cancelled; return MPI_SUCCESS; }

int MPI_Wait(MPI_Request* r, MPI_Status* st) { ycall("MPI_Wait"); return doWait(r, st, "MPI_Wait"); }
int MPI_Waitall(int n, MPI_Request* r, MPI_Status* st) {
  ycall("MPI_Waitall");
  for (int i = 0; i < n; ++i) checkReq(r[i], "MPI_Waitall");
  if (tls_task) { int p = 0; for (int i = 0; i < n; ++i) if (!isNull(r[i]) && !inactive(r[i]) && !reqDone(r[i])) ++p; snprintf(tls_task->detail, sizeof tls_task->detail, "(%d of %d requests pending)", p, n); }
  E->block("MPI_Waitall", [r, n] { for (int i = 0; i < n; ++i) if (!isNull(r[i]) && !inactive(r[i]) && !reqDone(r[i])) return false; return true; });
  for (int i = 0; i < n; ++i) { if (isNull(r[i]) || inactive(r[i])) { if (st) emptyStatus(st + i); } else { consume(r + i, st ? st + i : nullptr); } if (st) st[i].MPI_ERROR = MPI_SUCCESS; }
  return MPI_SUCCESS; }
static int pickDone(int n, MPI_Request* r, int* idx) {
  std::vector<int> d; for (int i = 0; i < n; ++i) if (!isNull(r[i]) && !inactive(r[i]) && reqDone(r[i])) d.push_back(i);
  if (d.empty()) return 0;
  u32 k = 0; if (d.size() > 1) { k = E->choice((u32)d.size(), [&]() -> u32 { return E->rng.below((u32)d.size()); }); E->fault("completion-order-choice"); }
  *idx = d[k]; E->evSched(1000 + d[k]); return 1; }
static bool anyActive(int n, MPI_Request* r) { for (int i = 0; i < n; ++i) if (!isNull(r[i]) && !inactive(r[i])) return true; return false; }
int MPI_Waitany(int n, MPI_Request* r, int* idx, MPI_Status* st) {
  ycall("MPI_Waitany"); for (int i = 0; i < n; ++i) checkReq(r[i], "MPI_Waitany");
  if (!anyActive(n, r)) { *idx = MPI_UNDEFINED; emptyStatus(st); return MPI_SUCCESS; }
  // an implementation may let several requests complete before it returns one of them
  E->block("MPI_Waitany", [r, n] { for (int i = 0; i < n; ++i) if (!isNull(r[i]) && !inactive(r[i]) && reqDone(r[i])) return true; return false; });
  pickDone(n, r, idx); consume(r + *idx, st); return MPI_SUCCESS; }
int MPI_Test(MPI_Request* r, int* f, MPI_Status* st) {
  ycall("MPI_Test"); if (isNull(*r)) { *f = 1; emptyStatus(st); return MPI_SUCCESS; } checkReq(*r, "MPI_Test");
  if (inactive(*r)) { *f = 1; emptyStatus(st); return MPI_SUCCESS; }
  if (reqDone(*r)) { *f = 1; consume(r, st); } else { *f = 0; E->pollFail(); } return MPI_SUCCESS; }
int MPI_Testany(int n, MPI_Request* r, int* idx, int* f, MPI_Status* st) {
  ycall("MPI_Testany"); if (!anyActive(n, r)) { *f = 1; *idx = MPI_UNDEFINED; emptyStatus(st); return MPI_SUCCESS; }
  if (pickDone(n, r, idx)) { *f = 1; consume(r + *idx, st); } else { *f = 0; *idx = MPI_UNDEFINED; E->pollFail(); } return MPI_SUCCESS; }
int MPI_Testall(int n, MPI_Request* r, int* f, MPI_Status* st) {
  ycall("MPI_Testall"); for (int i = 0; i < n; ++i) if (!isNull(r[i]) && !inactive(r[i]) && !reqDone(r[i])) { *f = 0; E->pollFail(); return MPI_SUCCESS; }
  for (int i = 0; i < n; ++i) if (isNull(r[i]) || inactive(r[i])) { if (st) emptyStatus(st + i); } else consume(r + i, st ? st + i : nullptr);
  *f = 1; return MPI_SUCCESS; }
static int some(int n, MPI_Request* r, int* cnt, int* idx, MPI_Status* st) {
  *cnt = 0;
  std::vector<int> d; for (int i = 0; i < n; ++i) if (!isNull(r[i]) && !inactive(r[i]) && reqDone(r[i])) d.push_back(i);
  // an arbitrary non-empty subset in arbitrary order is a legal answer
  while (!d.empty()) {
    u32 k = E->choice((u32)d.size(), [&]() -> u32 { return E->rng.below((u32)d.size()); });
    int i = d[k]; d.erase(d.begin() + k); idx[*cnt] = i; consume(r + i, st ? st + *cnt : nullptr); if (st) st[*cnt].MPI_ERROR = MPI_SUCCESS; ++*cnt;
    if (!d.empty() && E->choice(2, [&]() -> u32 { return E->rng.below(4) == 0; })) break;
  }
  return MPI_SUCCESS; }
int MPI_Testsome(int n, MPI_Request* r, int* cnt, int* idx, MPI_Status* st) {
  ycall("MPI_Testsome"); if (!anyActive(n, r)) { *cnt = MPI_UNDEFINED; return MPI_SUCCESS; } some(n, r, cnt, idx, st); if (*cnt == 0) E->pollFail(); return MPI_SUCCESS; }
int MPI_Waitsome(int n, MPI_Request* r, int* cnt, int* idx, MPI_Status* st) {
  ycall("MPI_Waitsome"); if (!anyActive(n, r)) { *cnt = MPI_UNDEFINED; return MPI_SUCCESS; }
  E->block("MPI_Waitsome", [r, n] { for (int i = 0; i < n; ++i) if (!isNull(r[i]) && !inactive(r[i]) && reqDone(r[i])) return true; return false; });
  return some(n, r, cnt, idx, st); }
static void probeCand(CommObj* c, int src, int tag, std::vector<Msg*>& cand, int who = -1) {
  if (who < 0) who = me();
  std::set<int> seen; for (Msg* m : M->unexpected[who][c->id]) if ((src == MPI_ANY_SOURCE || src == m->csrc) && (tag == MPI_ANY_TAG || tag == m->tag) && !seen.count(m->src)) { cand.push_back(m); seen.insert(m->src); } }
static Msg* probePick(std::vector<Msg*>& cand) { u32 k = 0; if (cand.size() > 1) { k = E->choice((u32)cand.size(), [&]() -> u32 { return E->rng.below((u32)cand.size()); }); E->fault("any-source-choice"); } return cand[k]; }
int MPI_Probe(int src, int tag, MPI_Comm comm, MPI_Status* st) {
  ycall("MPI_Probe"); CommObj* c = C(comm, "MPI_Probe"); crank(c, "MPI_Probe");
  if (tls_task) snprintf(tls_task->detail, sizeof tls_task->detail, "(from %d tag %d)", src, tag);
  E->block("MPI_Probe", [=, w = me()] { std::vector<Msg*> v; probeCand(c, src, tag, v, w); return !v.empty(); });
  std::vector<Msg*> v; probeCand(c, src, tag, v); Msg* m = probePick(v); setStatus(st, m->csrc, m->tag, m->bytes); return MPI_SUCCESS; }
int MPI_Iprobe(int src, int tag, MPI_Comm comm, int* f, MPI_Status* st) {
  ycall("MPI_Iprobe"); CommObj* c = C(comm, "MPI_Iprobe"); std::vector<Msg*> v; probeCand(c, src, tag, v);
  if (v.empty()) { *f = 0; E->pollFail(); return MPI_SUCCESS; } Msg* m = probePick(v); *f = 1; setStatus(st, m->csrc, m->tag, m->bytes); return MPI_SUCCESS; }
static void takeMsg(Msg* m, MPI_Message* mm) { auto& uq = M->unexpected[m->dst][m->comm->id]; uq.erase(std::find(uq.begin(), uq.end(), m)); *mm = new ompi_message_t{m}; }
int MPI_Mprobe(int src, int tag, MPI_Comm comm, MPI_Message* mm, MPI_Status* st) {
  ycall("MPI_Mprobe"); CommObj* c = C(comm, "MPI_Mprobe"); E->block("MPI_Mprobe", [=, w = me()] { std::vector<Msg*> v; probeCand(c, src, tag, v, w); return !v.empty(); });
  std::vector<Msg*> v; probeCand(c, src, tag, v); Msg* m = probePick(v); setStatus(st, m->csrc, m->tag, m->bytes); takeMsg(m, mm); return MPI_SUCCESS; }
int MPI_Improbe(int src, int tag, MPI_Comm comm, int* f, MPI_Message* mm, MPI_Status* st) {
  ycall("MPI_Improbe"); CommObj* c = C(comm, "MPI_Improbe"); std::vector<Msg*> v; probeCand(c, src, tag, v); if (v.empty()) { *f = 0; E->pollFail(); return MPI_SUCCESS; }
  Msg* m = probePick(v); *f = 1; setStatus(st, m->csrc, m->tag, m->bytes); takeMsg(m, mm); return MPI_SUCCESS; }
int MPI_Mrecv(void* b, int n, MPI_Datatype t, MPI_Message* mm, MPI_Status* st) {
  ycall("MPI_Mrecv"); Msg* m = (*mm)->m; delete *mm; *mm = MPI_MESSAGE_NULL; Req* r = new Req{}; r->type = Req::RECV; r->owner = me(); r->comm = m->comm; r->peer = m->csrc; r->tag = m->tag; r->buf = b; r->count = (size_t)n; r->dt = D(t, "MPI_Mrecv"); r->active = true; M->rs[me()].reqs.insert(r); M->match(m, r); MPI_Request q = r; return doWait(&q, st, "MPI_Mrecv"); }
int MPI_Imrecv(void* b, int n, MPI_Datatype t, MPI_Message* mm, MPI_Request* q) {
  Msg* m = (*mm)->m; delete *mm; *mm = MPI_MESSAGE_NULL; Req* r = new Req{}; r->type = Req::RECV; r->owner = me(); r->comm = m->comm; r->peer = m->csrc; r->tag = m->tag; r->buf = b; r->count = (size_t)n; r->dt = D(t, "MPI_Imrecv"); r->active = true; M->rs[me()].reqs.insert(r); M->match(m, r); *q = r; return MPI_SUCCESS; }
int MPI_Get_count(const MPI_Status* st, MPI_Datatype t, int* n) { DType* d = D(t, "MPI_Get_count"); if (d->size == 0) *n = 0; else if (st->_ucount % d->size) *n = MPI_UNDEFINED; else *n = (int)(st->_ucount / d->size); return MPI_SUCCESS; }
int MPI_Get_elements(const MPI_Status* st, MPI_Datatype t, int* n) { return MPI_Get_count(st, t, n); }
int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype st, int d, int stag, void* rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status* stat) {
  ycall("MPI_Sendrecv"); Req* r = mkReq(Req::RECV, rb, rn, rt, s, rtag, c, "MPI_Sendrecv"); startRecv(r); Req* q = mkReq(Req::SEND, (void*)sb, sn, st, d, stag, c, "MPI_Sendrecv"); startSend(q);
  MPI_Request a = r, b = q; doWait(&b, nullptr, "MPI_Sendrecv"); return doWait(&a, stat, "MPI_Sendrecv"); }
int MPI_Sendrecv_replace(void* b, int n, MPI_Datatype t, int d, int stag, int s, int rtag, MPI_Comm c, MPI_Status* stat) {
  ycall("MPI_Sendrecv_replace"); DType* dt = D(t, "MPI_Sendrecv_replace"); std::vector<char> tmp; packTo(dt, b, n, tmp);
  std::vector<char> full((size_t)std::max<ptrdiff_t>(dt->extent, (ptrdiff_t)dt->size) * (size_t)n + 64); unpackFrom(dt, full.data(), n, tmp.data(), tmp.size());
  Req* q = mkReq(Req::SEND, full.data(), n, t, d, stag, c, "MPI_Sendrecv_replace"); startSend(q); Req* r = mkReq(Req::RECV, b, n, t, s, rtag, c, "MPI_Sendrecv_replace"); startRecv(r);
  MPI_Request a = r, e = q; doWait(&e, nullptr, "MPI_Sendrecv_replace"); return doWait(&a, stat, "MPI_Sendrecv_replace"); }

// ---------------------------------------------------------------- datatypes
static MPI_Datatype mkType(DType* d) { ompi_datatype_t* t = new ompi_datatype_t{d, -1, d->size}; M->rs[me()].typesAlive++; return t; }
static void addSegs(DType* d, const DType* o, ptrdiff_t at, size_t count) {
  for (size_t c = 0; c < count; ++c) for (auto& s : o->segs) { ptrdiff_t off = at + (ptrdiff_t)c * o->extent + s.off; if (!d->segs.empty() && d->segs.back().kind == s.kind && d->segs.back().off + (ptrdiff_t)d->segs.back().len == off) d->segs.back().len += s.len; else d->segs.push_back(Seg{off, s.len, s.kind}); d->size += s.len; } }
static void bounds(DType* d, ptrdiff_t lo, ptrdiff_t hi, bool& first) { if (first) { d->lb = lo; d->extent = hi - lo; first = false; } else { ptrdiff_t ub = std::max(d->lb + d->extent, hi); d->lb = std::min(d->lb, lo); d->extent = ub - d->lb; } }
int MPI_Type_contiguous(int n, MPI_Datatype o, MPI_Datatype* nt) { DType* b = D(o, "MPI_Type_contiguous"); DType* d = new DType{0, 0, 0, {}, false, false, -1}; addSegs(d, b, 0, (size_t)n); d->lb = b->lb; d->extent = b->extent * n; *nt = mkType(d); return MPI_SUCCESS; }
int MPI_Type_create_struct(int n, const int* bl, const MPI_Aint* disp, const MPI_Datatype* ts, MPI_Datatype* nt) {
  DType* d = new DType{0, 0, 0, {}, false, false, -1}; bool first = true;
  for (int i = 0; i < n; ++i) { DType* b = D(ts[i], "MPI_Type_create_struct"); addSegs(d, b, disp[i], (size_t)bl[i]); if (bl[i]) bounds(d, disp[i] + b->lb, disp[i] + b->lb + b->extent * bl[i], first); }
  // alignment epsilon as common implementations do
  *nt = mkType(d); return MPI_SUCCESS; }
int MPI_Type_create_hindexed(int n, const int* bl, const MPI_Aint* disp, MPI_Datatype t, MPI_Datatype* nt) {
  DType* b = D(t, "MPI_Type_create_hindexed"); DType* d = new DType{0, 0, 0, {}, false, false, -1}; bool first = true;
  for (int i = 0; i < n; ++i) { addSegs(d, b, disp[i], (size_t)bl[i]); if (bl[i]) bounds(d, disp[i] + b->lb, disp[i] + b->lb + b->extent * bl[i], first); }
  *nt = mkType(d); return MPI_SUCCESS; }
int MPI_Type_create_resized(MPI_Datatype o, MPI_Aint lb, MPI_Aint ext, MPI_Datatype* nt) { DType* b = D(o, "MPI_Type_create_resized"); DType* d = new DType(*b); d->predefined = d->committed = false; d->lb = lb; d->extent = ext; *nt = mkType(d); return MPI_SUCCESS; }
int MPI_Type_vector(int n, int bl, int stride, MPI_Datatype o, MPI_Datatype* nt) { DType* b = D(o, "MPI_Type_vector"); DType* d = new DType{0, 0, 0, {}, false, false, -1}; bool f = true; for (int i = 0; i < n; ++i) { addSegs(d, b, (ptrdiff_t)i * stride * b->extent, (size_t)bl); bounds(d, (ptrdiff_t)i * stride * b->extent, ((ptrdiff_t)i * stride + bl) * b->extent, f); } *nt = mkType(d); return MPI_SUCCESS; }
int MPI_Type_commit(MPI_Datatype* t) { D(*t, "MPI_Type_commit")->committed = true; return MPI_SUCCESS; }
int MPI_Type_free(MPI_Datatype* t) { need(*t && (*t)->kind == -1, "MPI_Type_free of a predefined or null datatype"); D(*t, "MPI_Type_free"); M->rs[me()].typesAlive--; (*t)->freed = true; *t = MPI_DATATYPE_NULL; return MPI_SUCCESS; }
int MPI_Type_size(MPI_Datatype t, int* s) { *s = (int)D(t, "MPI_Type_size")->size; return MPI_SUCCESS; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint* lb, MPI_Aint* e) { DType* d = D(t, "MPI_Type_get_extent"); *lb = d->lb; *e = d->extent; return MPI_SUCCESS; }
int MPI_Pack_size(int n, MPI_Datatype t, MPI_Comm, int* s) { *s = (int)(D(t, "MPI_Pack_size")->size * (size_t)n); return MPI_SUCCESS; }
int MPI_Pack(const void* in, int n, MPI_Datatype t, void* out, int outsize, int* pos, MPI_Comm) {
  DType* d = D(t, "MPI_Pack"); okType(d, "MPI_Pack"); need(n >= 0, "MPI_Pack with negative count"); std::vector<char> tmp; packTo(d, in, (size_t)n, tmp);
  if (*pos < 0 || (size_t)*pos + tmp.size() > (size_t)outsize) E->violation("mpi-pack-overflow", "rank %d: MPI_Pack of %zu bytes at position %d overflows the %d byte buffer", me(), tmp.size(), *pos, outsize);
  if (!tmp.empty()) memcpy((char*)out + *pos, tmp.data(), tmp.size()); *pos += (int)tmp.size(); return MPI_SUCCESS; }
int MPI_Unpack(const void* in, int insize, int* pos, void* out, int n, MPI_Datatype t, MPI_Comm) {
  DType* d = D(t, "MPI_Unpack"); okType(d, "MPI_Unpack"); need(n >= 0, "MPI_Unpack with negative count"); size_t b = d->size * (size_t)n;
  if (*pos < 0 || (size_t)*pos + b > (size_t)insize) E->violation("mpi-unpack-overflow", "rank %d: MPI_Unpack of %zu bytes at position %d reads beyond the %d byte buffer", me(), b, *pos, insize);
  unpackFrom(d, out, (size_t)n, (const char*)in + *pos, b); *pos += (int)b; return MPI_SUCCESS; }

// ---------------------------------------------------------------- ops
int MPI_Op_create(MPI_User_function* f, int commute, MPI_Op* op) { *op = new ompi_op_t{OP_USER, f, commute}; return MPI_SUCCESS; }
int MPI_Op_free(MPI_Op* op) { *op = MPI_OP_NULL; return MPI_SUCCESS; }
}

template <class T> static void redNum(int op, const T* a, T* b, size_t n) { // b = a op b
  for (size_t i = 0; i < n; ++i) switch (op) {
    case OP_SUM: b[i] = a[i] + b[i]; break; case OP_PROD: b[i] = a[i] * b[i]; break; case OP_MIN: b[i] = a[i] < b[i] ? a[i] : b[i]; break; case OP_MAX: b[i] = a[i] > b[i] ? a[i] : b[i]; break;
    case OP_LAND: b[i] = a[i] && b[i]; break; case OP_LOR: b[i] = a[i] || b[i]; break; case OP_LXOR: b[i] = (!a[i]) != (!b[i]); break; default: E->violation("mpi-misuse", "unsupported reduction"); } }
template <class T> static void redInt(int op, const T* a, T* b, size_t n) {
  for (size_t i = 0; i < n; ++i) switch (op) { case OP_BAND: b[i] = a[i] & b[i]; break; case OP_BOR: b[i] = a[i] | b[i]; break; case OP_BXOR: b[i] = a[i] ^ b[i]; break; default: redNum(op, a + i, b + i, 1); } }
template <class T> static void redCplx(int op, const T* a, T* b, size_t n) { for (size_t i = 0; i < n; ++i) switch (op) { case OP_SUM: b[i] = a[i] + b[i]; break; case OP_PROD: b[i] = a[i] * b[i]; break; default: E->violation("mpi-misuse", "unsupported reduction on complex"); } }
template <class T> static void redLoc(int op, const T* a, T* b, size_t n) { for (size_t i = 0; i < n; ++i) { bool less = a[i].d < b[i].d, eq = a[i].d == b[i].d; bool take = op == OP_MINLOC ? less : (!less && !eq); if (take || (eq && a[i].i < b[i].i)) b[i] = a[i]; } }
struct ii_t { int d, i; }; struct f2_t { float d; int i; }; struct l2_t { long d; int i; };
static void reduceInto(MPI_Op op, DType* d, MPI_Datatype t, const void* a, void* b, size_t count) {
  if (op->op == OP_USER) { int n = (int)count; MPI_Datatype tt = t; op->fn((void*)a, b, &n, &tt); return; }
  need(d->segs.size() == 1, "predefined reduction on a derived datatype");
  int k = d->segs[0].kind; size_t n = count * d->size;
  switch (k) {
    case K_CHAR: case K_SCHAR: redInt(op->op, (const signed char*)a, (signed char*)b, n); break;
    case K_UCHAR: case K_BYTE: redInt(op->op, (const unsigned char*)a, (unsigned char*)b, n); break;
    case K_BOOL: redInt(op->op, (const unsigned char*)a, (unsigned char*)b, n); break;
    case K_SHORT: redInt(op->op, (const short*)a, (short*)b, n / 2); break; case K_USHORT: redInt(op->op, (const unsigned short*)a, (unsigned short*)b, n / 2); break;
    case K_INT: redInt(op->op, (const int*)a, (int*)b, n / 4); break; case K_UINT: redInt(op->op, (const unsigned*)a, (unsigned*)b, n / 4); break;
    case K_LONG: case K_LLONG: redInt(op->op, (const long*)a, (long*)b, n / 8); break; case K_ULONG: case K_ULLONG: redInt(op->op, (const unsigned long*)a, (unsigned long*)b, n / 8); break;
    case K_FLOAT: redNum(op->op, (const float*)a, (float*)b, n / 4); break; case K_DOUBLE: redNum(op->op, (const double*)a, (double*)b, n / 8); break; case K_LDOUBLE: redNum(op->op, (const long double*)a, (long double*)b, n / 16); break;
    case K_CFLOAT: redCplx(op->op, (const std::complex<float>*)a, (std::complex<float>*)b, n / 8); break; case K_CDOUBLE: redCplx(op->op, (const std::complex<double>*)a, (std::complex<double>*)b, n / 16); break; case K_CLDOUBLE: redCplx(op->op, (const std::complex<long double>*)a, (std::complex<long double>*)b, n / 32); break;
    case K_2INT: redLoc(op->op, (const ii_t*)a, (ii_t*)b, n / 8); break; case K_DOUBLE_INT: redLoc(op->op, (const di_t*)a, (di_t*)b, n / sizeof(di_t)); break; case K_FLOAT_INT: redLoc(op->op, (const f2_t*)a, (f2_t*)b, n / 8); break; case K_LONG_INT: redLoc(op->op, (const l2_t*)a, (l2_t*)b, n / 16); break;
    default: E->violation("mpi-misuse", "reduction on unsupported datatype kind %d", k);
  }
}

// ---------------------------------------------------------------- collectives
enum CT { CT_BARRIER, CT_BCAST, CT_GATHER, CT_SCATTER, CT_ALLGATHER, CT_ALLTOALL, CT_REDUCE, CT_ALLREDUCE, CT_SCAN, CT_EXSCAN, CT_SPLIT };
static const char* ctName[] = {"Barrier", "Bcast", "Gather", "Scatter", "Allgather", "Alltoall", "Reduce", "Allreduce", "Scan", "Exscan", "Comm_split"};

static Coll* enter(CommObj* c, int type, int root, u64 sig, const char* fn, int opk = 0) {
  int r = crank(c, fn); u64 s = c->collSeq[r]++;
  auto key = std::make_pair(c->id, s);
  Coll*& k = M->colls[key];
  if (!k) {
    k = new Coll{}; k->name = ctName[type]; k->type = type; k->comm = c; k->seq = s; k->n = (int)c->group.size(); k->root = root; k->here.assign(k->n, 0); k->send.resize(k->n); k->cnt.resize(k->n); k->sig.assign(k->n, 0); k->ck.resize(k->n); k->opk = opk;
    k->forceSync = M->collSyncPermille && E->choice(2, [&]() -> u32 { return E->rng.chance((u32)M->collSyncPermille); });
    if (k->forceSync) E->fault("collective-synchronising");
  }
  if (k->type != type) E->violation("collective-mismatch", "on communicator %d the collective #%llu is %s on some rank but %s on rank %d", c->id, (unsigned long long)s, k->name, ctName[type], me());
  if (k->root != root) E->violation("collective-mismatch", "%s #%llu on communicator %d: rank %d uses root %d, another rank root %d", k->name, (unsigned long long)s, c->id, me(), root, k->root);
  if (k->opk != opk) E->violation("collective-mismatch", "%s #%llu on communicator %d: different reduction operators on different ranks", k->name, (unsigned long long)s, c->id);
  k->sig[r] = sig;
  for (int i = 0; i < k->n; ++i) if (k->here[i] && sig && k->sig[i] && k->sig[i] != sig) E->violation("collective-mismatch", "%s #%llu on communicator %d: message sizes differ between rank %d (%llu) and rank %d (%llu)", k->name, (unsigned long long)s, c->id, me(), (unsigned long long)sig, c->group[i], (unsigned long long)k->sig[i]);
  k->here[r] = 1; k->arrived++;
  E->ev(3, (u64)type << 32 | (u64)me(), s); E->evSched(mix64(type * 31 + me())); E->log("enter %s #%llu comm %d", k->name, (unsigned long long)s, c->id);
  return k;
}
static void leave(Coll* k) { if (k->arrived < k->n) E->fault("collective-early-exit"); if (++k->left == k->n) { M->colls.erase(std::make_pair(k->comm->id, k->seq)); delete k; } }
static std::function<bool()> readyFn(Coll* k, int r) {
  switch (k->type) {
    case CT_BCAST: case CT_SCATTER: return [k, r] { return (k->forceSync || r == k->root) ? (k->forceSync ? k->arrived == k->n : true) : (bool)k->here[k->root]; };
    case CT_GATHER: case CT_REDUCE: return [k, r] { return (r == k->root || k->forceSync) ? k->arrived == k->n : true; };
    case CT_SCAN: case CT_EXSCAN: return [k, r] { if (k->forceSync) return k->arrived == k->n; for (int i = 0; i <= r; ++i) if (!k->here[i]) return false; return true; };
    default: return [k] { return k->arrived == k->n; };
  }
}
static void permute(Coll* k, bool ordered) {
  if (k->permSet) return; k->permSet = true; k->perm.resize(k->n); for (int i = 0; i < k->n; ++i) k->perm[i] = i;
  if (!ordered && M->redOrder && k->n > 1) { bool ch = false; for (int i = k->n - 1; i > 0; --i) { u32 j = E->choice((u32)i + 1, [&]() -> u32 { return E->rng.below((u32)i + 1); }); if (j) { std::swap(k->perm[i], k->perm[i - j]); ch = true; } } if (ch) E->fault("reduction-order"); }
}
static void reduceResult(Coll* k, MPI_Op op, MPI_Datatype t, size_t count, int upto, bool ordered, void* out) {
  DType* d = D(t, "reduce"); permute(k, ordered || (op->op == OP_USER && !op->commute));
  size_t full = (size_t)std::max<ptrdiff_t>(d->extent, (ptrdiff_t)d->size) * count + 64;
  std::vector<char> acc(full), x(full); bool first = true;
  for (int i : k->perm) { if (i > upto) continue; unpackFrom(d, x.data(), count, k->send[i].data(), k->send[i].size()); if (first) { acc = x; first = false; } else reduceInto(op, d, t, x.data(), acc.data(), count); }
  std::vector<char> p; packTo(d, acc.data(), count, p); unpackFrom(d, out, count, p.data(), p.size());
  E->evBytes(p.data(), p.size());
}
// run a collective, blocking or as a request
static int runColl(Coll* k, int r, const char* fn, std::function<void()> fin, MPI_Request* rq) {
  auto rd = readyFn(k, r);
  if (rq) {
    Req* q = new Req{}; q->type = Req::COLL; q->owner = me(); q->comm = k->comm; q->active = true; q->dt = D(MPI_BYTE, fn); q->collReady = rd; q->collFinish = [k, fin] { fin(); leave(k); }; M->rs[me()].reqs.insert(q); *rq = q; return MPI_SUCCESS;
  }
  if (tls_task) snprintf(tls_task->detail, sizeof tls_task->detail, "(collective #%llu on communicator %d)", (unsigned long long)k->seq, k->comm->id);
  E->block(fn, rd);
  fin(); leave(k); return MPI_SUCCESS;
}
static int opKind(MPI_Op op) { need(op && op != MPI_OP_NULL, "reduction with MPI_OP_NULL"); return op->op; }

static int doBarrier(MPI_Comm c, MPI_Request* rq) { ycall("MPI_Barrier"); CommObj* o = C(c, "MPI_Barrier"); Coll* k = enter(o, CT_BARRIER, 0, 0, "MPI_Barrier"); return runColl(k, crank(o, ""), "MPI_Barrier", [] {}, rq); }
static int doBcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c, MPI_Request* rq) {
  ycall("MPI_Bcast"); CommObj* o = C(c, "MPI_Bcast"); int r = crank(o, "MPI_Bcast"); DType* d = D(t, "MPI_Bcast"); need(root >= 0 && root < (int)o->group.size(), "MPI_Bcast root"); Coll* k = enter(o, CT_BCAST, root, 1 + d->size * (size_t)n, "MPI_Bcast");
  if (r == root) packTo(d, b, (size_t)n, k->send[r]);
  return runColl(k, r, "MPI_Bcast", [=] { if (r != root) unpackFrom(d, b, (size_t)n, k->send[root].data(), k->send[root].size()); }, rq); }
static int doAllreduce(const void* s, void* b, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request* rq) {
  ycall("MPI_Allreduce"); CommObj* o = C(c, "MPI_Allreduce"); int r = crank(o, "MPI_Allreduce"); DType* d = D(t, "MPI_Allreduce"); okType(d, "MPI_Allreduce"); Coll* k = enter(o, CT_ALLREDUCE, 0, 1 + d->size * (size_t)n, "MPI_Allreduce", opKind(op));
  packTo(d, s == MPI_IN_PLACE ? b : s, (size_t)n, k->send[r]);
  return runColl(k, r, "MPI_Allreduce", [=] { reduceResult(k, op, t, (size_t)n, INT_MAX, false, b); }, rq); }
static int doReduce(const void* s, void* b, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
  ycall("MPI_Reduce"); CommObj* o = C(c, "MPI_Reduce"); int r = crank(o, "MPI_Reduce"); DType* d = D(t, "MPI_Reduce"); Coll* k = enter(o, CT_REDUCE, root, 1 + d->size * (size_t)n, "MPI_Reduce", opKind(op));
  packTo(d, s == MPI_IN_PLACE ? b : s, (size_t)n, k->send[r]);
  return runColl(k, r, "MPI_Reduce", [=] { if (r == root) reduceResult(k, op, t, (size_t)n, INT_MAX, false, b); }, nullptr); }
static int doScan(const void* s, void* b, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, bool ex) {
  ycall("MPI_Scan"); CommObj* o = C(c, "MPI_Scan"); int r = crank(o, "MPI_Scan"); DType* d = D(t, "MPI_Scan"); Coll* k = enter(o, ex ? CT_EXSCAN : CT_SCAN, 0, 1 + d->size * (size_t)n, "MPI_Scan", opKind(op));
  packTo(d, s == MPI_IN_PLACE ? b : s, (size_t)n, k->send[r]);
  return runColl(k, r, "MPI_Scan", [=] { int up = ex ? r - 1 : r; if (up >= 0) reduceResult(k, op, t, (size_t)n, up, true, b); }, nullptr); }
// general vector collectives: every rank deposits one packed block per destination
static int doGatherv(const void* s, int sn, MPI_Datatype st, void* b, const int* rc, const int* dp, int rn, MPI_Datatype rt, int root, bool all, MPI_Comm c, const char* fn, MPI_Request* rq) {
  ycall(fn); CommObj* o = C(c, fn); int r = crank(o, fn); bool isRoot = all || r == root;
  Coll* k = enter(o, all ? CT_ALLGATHER : CT_GATHER, all ? 0 : root, 0, fn);
  int np = (int)o->group.size();
  DType* rd = isRoot ? D(rt, fn) : nullptr;
  if (s == MPI_IN_PLACE) { need(isRoot, "MPI_IN_PLACE on non-root"); const char* at = (const char*)b + (rc ? (ptrdiff_t)dp[r] : (ptrdiff_t)r * rn) * rd->extent; packTo(rd, at, (size_t)(rc ? rc[r] : rn), k->send[r]); }
  else { DType* sd = D(st, fn); need(sn >= 0, "negative send count"); packTo(sd, s, (size_t)sn, k->send[r]); }
  std::vector<size_t> cnt(np), dis(np);
  if (isRoot) for (int i = 0; i < np; ++i) { cnt[i] = (size_t)(rc ? rc[i] : rn); dis[i] = (size_t)(rc ? dp[i] : i * rn); }
  bool inPlace = s == MPI_IN_PLACE;
  return runColl(k, r, fn, [=] {
    if (!isRoot) return;
    for (int i = 0; i < np; ++i) {
      size_t want = cnt[i] * rd->size, have = k->send[i].size();
      if (want != have) E->violation("collective-mismatch", "%s #%llu on communicator %d: rank %d expects %zu bytes from rank %d which sends %zu bytes", fn, (unsigned long long)k->seq, o->id, me(), want, o->group[i], have);
      if (!(inPlace && i == r)) unpackFrom(rd, (char*)b + (ptrdiff_t)dis[i] * rd->extent, cnt[i], k->send[i].data(), have);
      E->evBytes(k->send[i].data(), have);
    } }, rq); }
static int doScatterv(const void* s, const int* sc, const int* dp, int sn, MPI_Datatype st, void* b, int rn, MPI_Datatype rt, int root, MPI_Comm c, const char* fn, MPI_Request* rq) {
  ycall(fn); CommObj* o = C(c, fn); int r = crank(o, fn); Coll* k = enter(o, CT_SCATTER, root, 0, fn); int np = (int)o->group.size();
  if (r == root) { DType* sd = D(st, fn); std::vector<char> all; k->cnt[r].clear(); for (int i = 0; i < np; ++i) { std::vector<char> p; packTo(sd, (const char*)s + (ptrdiff_t)(sc ? dp[i] : i * sn) * sd->extent, (size_t)(sc ? sc[i] : sn), p); all.insert(all.end(), p.begin(), p.end()); k->cnt[r].push_back(p.size()); } k->send[r] = all; }
  DType* rd = b == MPI_IN_PLACE ? nullptr : D(rt, fn);
  return runColl(k, r, fn, [=] {
    size_t off = 0; for (int i = 0; i < r; ++i) off += k->cnt[root][i];
    if (b == MPI_IN_PLACE) return;
    size_t have = k->cnt[root][r]; if (have != rd->size * (size_t)rn) E->violation("collective-mismatch", "%s: rank %d expects %zu bytes, root sends %zu", fn, me(), rd->size * (size_t)rn, have);
    unpackFrom(rd, b, (size_t)rn, k->send[root].data() + off, have); }, rq); }
static int doAlltoallv(const void* s, const int* sc, const int* sd, int sn, MPI_Datatype st, void* b, const int* rc, const int* rdp, int rn, MPI_Datatype rt, MPI_Comm c, const char* fn) {
  ycall(fn); CommObj* o = C(c, fn); int r = crank(o, fn); Coll* k = enter(o, CT_ALLTOALL, 0, 0, fn); int np = (int)o->group.size(); DType* S = D(st, fn); DType* R = D(rt, fn);
  std::vector<char> all; k->cnt[r].clear(); for (int i = 0; i < np; ++i) { std::vector<char> p; packTo(S, (const char*)s + (ptrdiff_t)(sc ? sd[i] : i * sn) * S->extent, (size_t)(sc ? sc[i] : sn), p); all.insert(all.end(), p.begin(), p.end()); k->cnt[r].push_back(p.size()); } k->send[r] = all;
  return runColl(k, r, fn, [=] {
    for (int i = 0; i < np; ++i) { size_t off = 0; for (int j = 0; j < r; ++j) off += k->cnt[i][j]; size_t have = k->cnt[i][r], want = R->size * (size_t)(rc ? rc[i] : rn);
      if (have != want) E->violation("collective-mismatch", "%s: rank %d expects %zu bytes from rank %d which sends %zu", fn, me(), want, o->group[i], have);
      unpackFrom(R, (char*)b + (ptrdiff_t)(rc ? rdp[i] : i * rn) * R->extent, (size_t)(rc ? rc[i] : rn), k->send[i].data() + off, have); E->evBytes(k->send[i].data() + off, have); } }, nullptr); }

extern "C" {
int MPI_Barrier(MPI_Comm c) { return doBarrier(c, nullptr); }
int MPI_Ibarrier(MPI_Comm c, MPI_Request* r) { return doBarrier(c, r); }
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) { return doBcast(b, n, t, root, c, nullptr); }
int MPI_Ibcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c, MPI_Request* r) { return doBcast(b, n, t, root, c, r); }
int MPI_Allreduce(const void* s, void* b, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return doAllreduce(s, b, n, t, op, c, nullptr); }
int MPI_Iallreduce(const void* s, void* b, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request* r) { return doAllreduce(s, b, n, t, op, c, r); }
int MPI_Reduce(const void* s, void* b, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { return doReduce(s, b, n, t, op, root, c); }
int MPI_Scan(const void* s, void* b, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return doScan(s, b, n, t, op, c, false); }
int MPI_Exscan(const void* s, void* b, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return doScan(s, b, n, t, op, c, true); }
int MPI_Gather(const void* s, int sn, MPI_Datatype st, void* b, int rn, MPI_Datatype rt, int root, MPI_Comm c) { return doGatherv(s, sn, st, b, nullptr, nullptr, rn, rt, root, false, c, "MPI_Gather", nullptr); }
int MPI_Igather(const void* s, int sn, MPI_Datatype st, void* b, int rn, MPI_Datatype rt, int root, MPI_Comm c, MPI_Request* r) { return doGatherv(s, sn, st, b, nullptr, nullptr, rn, rt, root, false, c, "MPI_Igather", r); }
int MPI_Gatherv(const void* s, int sn, MPI_Datatype st, void* b, const int* rc, const int* dp, MPI_Datatype rt, int root, MPI_Comm c) { return doGatherv(s, sn, st, b, rc, dp, 0, rt, root, false, c, "MPI_Gatherv", nullptr); }
int MPI_Allgather(const void* s, int sn, MPI_Datatype st, void* b, int rn, MPI_Datatype rt, MPI_Comm c) { return doGatherv(s, sn, st, b, nullptr, nullptr, rn, rt, 0, true, c, "MPI_Allgather", nullptr); }
int MPI_Iallgather(const void* s, int sn, MPI_Datatype st, void* b, int rn, MPI_Datatype rt, MPI_Comm c, MPI_Request* r) { return doGatherv(s, sn, st, b, nullptr, nullptr, rn, rt, 0, true, c, "MPI_Iallgather", r); }
int MPI_Allgatherv(const void* s, int sn, MPI_Datatype st, void* b, const int* rc, const int* dp, MPI_Datatype rt, MPI_Comm c) { return doGatherv(s, sn, st, b, rc, dp, 0, rt, 0, true, c, "MPI_Allgatherv", nullptr); }
int MPI_Scatter(const void* s, int sn, MPI_Datatype st, void* b, int rn, MPI_Datatype rt, int root, MPI_Comm c) { return doScatterv(s, nullptr, nullptr, sn, st, b, rn, rt, root, c, "MPI_Scatter", nullptr); }
int MPI_Iscatter(const void* s, int sn, MPI_Datatype st, void* b, int rn, MPI_Datatype rt, int root, MPI_Comm c, MPI_Request* r) { return doScatterv(s, nullptr, nullptr, sn, st, b, rn, rt, root, c, "MPI_Iscatter", r); }
int MPI_Scatterv(const void* s, const int* sc, const int* dp, MPI_Datatype st, void* b, int rn, MPI_Datatype rt, int root, MPI_Comm c) { return doScatterv(s, sc, dp, 0, st, b, rn, rt, root, c, "MPI_Scatterv", nullptr); }
int MPI_Alltoall(const void* s, int sn, MPI_Datatype st, void* b, int rn, MPI_Datatype rt, MPI_Comm c) { return doAlltoallv(s, nullptr, nullptr, sn, st, b, nullptr, nullptr, rn, rt, c, "MPI_Alltoall"); }
int MPI_Alltoallv(const void* s, const int* sc, const int* sd, MPI_Datatype st, void* b, const int* rc, const int* rd, MPI_Datatype rt, MPI_Comm c) { return doAlltoallv(s, sc, sd, 0, st, b, rc, rd, 0, rt, c, "MPI_Alltoallv"); }

int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* nc) {
  ycall("MPI_Comm_split"); CommObj* o = C(c, "MPI_Comm_split"); int r = crank(o, "MPI_Comm_split"); Coll* k = enter(o, CT_SPLIT, 0, 0, "MPI_Comm_split"); k->ck[r] = {color, key};
  return runColl(k, r, "MPI_Comm_split", [=] {
    if (!k->splitDone) {
      k->splitDone = true; std::map<int, std::vector<std::pair<int, int>>> g; for (int i = 0; i < k->n; ++i) if (k->ck[i].first != MPI_UNDEFINED) g[k->ck[i].first].push_back({k->ck[i].second, i});
      for (auto& p : g) { std::stable_sort(p.second.begin(), p.second.end()); CommObj* q = new CommObj; q->id = M->nextComm++; for (auto& x : p.second) q->group.push_back(o->group[x.second]); q->collSeq.assign(q->group.size(), 0); M->comms.push_back(q); k->split[p.first] = q; }
    }
    if (color == MPI_UNDEFINED) *nc = MPI_COMM_NULL; else { *nc = new ompi_communicator_t{k->split[color]}; M->rs[me()].commsAlive++; } }, nullptr); }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* nc) { CommObj* o = C(c, "MPI_Comm_dup"); return MPI_Comm_split(c, 0, crank(o, "MPI_Comm_dup"), nc); }
int MPI_Comm_free(MPI_Comm* c) { C(*c, "MPI_Comm_free"); need((void*)*c != (void*)&ompi_mpi_comm_world && (void*)*c != (void*)&ompi_mpi_comm_self, "MPI_Comm_free of a predefined communicator"); (*c)->freed = true; M->rs[me()].commsAlive--; *c = MPI_COMM_NULL; return MPI_SUCCESS; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int* r) { CommObj *x = C(a, "MPI_Comm_compare"), *y = C(b, "MPI_Comm_compare"); *r = x == y ? MPI_IDENT : x->group == y->group ? MPI_CONGRUENT : MPI_UNEQUAL; return MPI_SUCCESS; }
double MPI_Wtime(void) { return sim_clock_ns() * 1e-9; }
double MPI_Wtick(void) { return 1e-6; }
}

// ---------------------------------------------------------------- setup / teardown of a run
namespace sim {
void mpiSetup(int n) {
  M = new MpiSim; M->n = n; M->world.id = 1; for (int i = 0; i < n; ++i) M->world.group.push_back(i); M->world.collSeq.assign(n, 0);
  for (int i = 0; i < n; ++i) { CommObj* s = new CommObj; s->id = -(i + 1); s->group = {i}; s->collSeq.assign(1, 0); M->selfs.push_back(s); }
  M->unexpected.resize(n); M->posted.resize(n); M->rs.resize(n); M->lastSeqDelivered.assign(n, 0);
  ompi_mpi_comm_world.c = &M->world;
  M->sendMode = (int)E->param("sim.sendmode", 0, 3); static const int lims[] = {0, 8, 64, 512, 4096}; M->eagerLimit = lims[E->param("sim.eagerlimit", 0, 4)];
  int cs = (int)E->param("sim.collsync", 0, 2); M->collSyncPermille = cs == 0 ? 0 : cs == 1 ? 200 : 1000; M->redOrder = E->param("sim.redorder", 0, 1);
  M->clockFaults = E->param("sim.clockfaults", 0, 1);
  E->net = M;
}
void mpiTeardown(bool strict) {
  if (!strict) return;
  std::string s; char b[200];
  for (auto& p : M->inflight) for (Msg* m : p.second) { snprintf(b, sizeof b, "message %d->%d tag %d (%zu bytes) sent but never received; ", m->src, m->dst, m->tag, m->bytes); if (s.size() < 3000) s += b; }
  for (int d = 0; d < M->n; ++d) for (auto& p : M->unexpected[d]) for (Msg* m : p.second) { snprintf(b, sizeof b, "message %d->%d tag %d (%zu bytes) sent but never received; ", m->src, m->dst, m->tag, m->bytes); if (s.size() < 3000) s += b; }
  for (int d = 0; d < M->n; ++d) for (Req* r : M->rs[d].reqs) if (r->active) { snprintf(b, sizeof b, "rank %d never completed its %s request (peer %d tag %d); ", d, r->type == Req::SEND ? "send" : r->type == Req::RECV ? "receive" : "collective", r->peer, r->tag); if (s.size() < 3000) s += b; }
  for (auto& c : M->colls) { snprintf(b, sizeof b, "collective %s on communicator %d entered by %d of %d ranks; ", c.second->name, c.first.first, c.second->arrived, c.second->n); if (s.size() < 3000) s += b; }
  if (!s.empty()) E->violation("message-leak", "%s", s.c_str());
}
u64 mpiMessages() { return M ? M->seq : 0; }
unsigned& mpiRandState() { static unsigned g = 1; return tls_task && M && me() < (int)M->rs.size() ? M->rs[me()].randState : g; }

// simulated per-rank clock
}
extern "C" long long sim_mpi_live(int what) { if (!M || !tls_task) return 0; RankState& r = M->rs[me()]; return what == 0 ? r.commsAlive : what == 1 ? r.typesAlive : (long long)r.reqs.size(); }
extern "C" long long sim_clock_ns(void) {
  static thread_local long long skew = 0;
  if (E && tls_task && M) { RankState& r = M->rs[me()]; if (M->clockFaults && ++r.clockReads % 3 == 0) { u32 v = E->choice(4, [&]() -> u32 { return E->fltRng.chance(300) ? 1 + E->fltRng.below(3) : 0; }); if (v) { static const i64 j[] = {0, 3600000000000ll, -1800000000000ll, 5000000}; r.clockSkewNs += j[v]; E->fault("clock-jump"); } } return 1000000000ll * 1700000 + (long long)E->shm->simns + r.clockSkewNs; }
  return 1000000000ll * 1700000 + (E ? (long long)E->shm->simns : 0) + skew;
}
