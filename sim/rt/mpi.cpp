// Simulated MPI on the deterministic scheduler: ranks are simulated threads of one
// process, every message goes through a simulated network.
#include "sim.h"
#include "../include/mpi.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <list>
#include <memory>
#include <unistd.h>

namespace sim {
extern double pRendezvous();
NetKnobs net;
}
using namespace sim;

namespace {
struct Msg { int src, tag, comm; std::vector<char> data; uint64_t avail, seq; bool sync, taken = false; };
typedef std::shared_ptr<Msg> MsgP;
int N = 0; uint64_t g_seq = 0;
std::vector<std::list<MsgP>> box;                      // per destination, send order
std::map<std::pair<int, int>, uint64_t> lastAvail;     // non-overtaking per (src,dst)
struct Coll { std::string kind; int root = -2, op = 0; int arrived = 0, left = 0; std::vector<std::vector<char>> in; std::vector<char> has; std::vector<int> cnt; std::vector<std::vector<char>> out; bool computed = false; int rot = 0; };
struct Comm { bool selfc = false; std::vector<uint64_t> next; std::map<uint64_t, Coll> inst; };
std::map<int, Comm> comms; int nextComm = 100;
struct Req { bool recv; void* buf; size_t cap; int src, tag, comm, dst; MsgP m; bool done = false; MPI_Status s; };
std::map<int, Req> reqs; int nextReq = 1;
std::map<int, size_t> userTypes; int nextType = 1000;
std::map<int, MPI_User_function*> userOps; int nextOp = 1000;

[[noreturn]] void bad(const std::string& w) { violationExit("MPI: rank " + std::to_string(selfRank()) + ": " + w); }
size_t tsz(MPI_Datatype t)
{
    switch (t) {
    case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_UNSIGNED_CHAR: case MPI_BYTE: case MPI_C_BOOL: case MPI_CXX_BOOL: case MPI_INT8_T: case MPI_UINT8_T: return 1;
    case MPI_SHORT: case MPI_UNSIGNED_SHORT: case MPI_INT16_T: case MPI_UINT16_T: return 2;
    case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: case MPI_INT32_T: case MPI_UINT32_T: return 4;
    case MPI_LONG: case MPI_UNSIGNED_LONG: case MPI_LONG_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_DOUBLE: case MPI_INT64_T: case MPI_UINT64_T: case MPI_2INT: case MPI_AINT_T: return 8;
    case MPI_LONG_DOUBLE: case MPI_DOUBLE_INT: return 16;
    default: { auto i = userTypes.find(t); if (i != userTypes.end()) return i->second; bad("invalid datatype"); }
    }
}
size_t bytes(long count, MPI_Datatype t) { if (count < 0) bad("negative count " + std::to_string(count)); return (size_t)count * tsz(t); }
int me() { int r = selfRank(); if (r < 0) { fprintf(stderr, "MPI call outside the simulation\n"); _exit(96); } return r; }
int csize(MPI_Comm c) { return comms.count(c) ? (comms[c].selfc ? 1 : N) : (bad("invalid communicator"), 0); }
int crank(MPI_Comm c) { return comms[c].selfc ? 0 : me(); }
void checkPeer(int r, MPI_Comm c, const char* w) { if (r < 0 || r >= csize(c)) bad(std::string(w) + " names invalid rank " + std::to_string(r)); }

template<class T, class F> void apply(char* a, const char* b, size_t n, F f) { T* x = (T*)a; const T* y = (const T*)b; for (size_t i = 0; i < n; i++) x[i] = (T)f(x[i], y[i]); }
template<class T> void arith(char* a, const char* b, size_t n, int op)
{
    switch (op) {
    case MPI_MAX: apply<T>(a, b, n, [](T x, T y) { return x < y ? y : x; }); break;
    case MPI_MIN: apply<T>(a, b, n, [](T x, T y) { return y < x ? y : x; }); break;
    case MPI_SUM: apply<T>(a, b, n, [](T x, T y) { return x + y; }); break;
    case MPI_PROD: apply<T>(a, b, n, [](T x, T y) { return x * y; }); break;
    case MPI_LAND: apply<T>(a, b, n, [](T x, T y) { return (T)(x && y); }); break;
    case MPI_LOR: apply<T>(a, b, n, [](T x, T y) { return (T)(x || y); }); break;
    case MPI_LXOR: apply<T>(a, b, n, [](T x, T y) { return (T)(!x != !y); }); break;
    default: bad("unsupported reduction");
    }
}
template<class T> void integral(char* a, const char* b, size_t n, int op)
{
    switch (op) {
    case MPI_BAND: apply<T>(a, b, n, [](T x, T y) { return x & y; }); break;
    case MPI_BOR: apply<T>(a, b, n, [](T x, T y) { return x | y; }); break;
    case MPI_BXOR: apply<T>(a, b, n, [](T x, T y) { return x ^ y; }); break;
    default: arith<T>(a, b, n, op);
    }
}
void combine(char* a, const char* b, size_t n, MPI_Datatype t, int op)
{
    if (userOps.count(op)) { int k = (int)n; MPI_Datatype tt = t; userOps[op]((void*)b, a, &k, &tt); return; }
    switch (t) {
    case MPI_DOUBLE: arith<double>(a, b, n, op); break;
    case MPI_FLOAT: arith<float>(a, b, n, op); break;
    case MPI_LONG_DOUBLE: arith<long double>(a, b, n, op); break;
    case MPI_INT: case MPI_INT32_T: integral<int>(a, b, n, op); break;
    case MPI_UNSIGNED: case MPI_UINT32_T: integral<unsigned>(a, b, n, op); break;
    case MPI_LONG: case MPI_LONG_LONG: case MPI_INT64_T: integral<long long>(a, b, n, op); break;
    case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_UINT64_T: integral<unsigned long long>(a, b, n, op); break;
    case MPI_SHORT: case MPI_INT16_T: integral<short>(a, b, n, op); break;
    case MPI_UNSIGNED_SHORT: case MPI_UINT16_T: integral<unsigned short>(a, b, n, op); break;
    case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_INT8_T: integral<signed char>(a, b, n, op); break;
    case MPI_UNSIGNED_CHAR: case MPI_BYTE: case MPI_UINT8_T: case MPI_C_BOOL: case MPI_CXX_BOOL: integral<unsigned char>(a, b, n, op); break;
    default: bad("unsupported type in reduction");
    }
}

// earliest matching message of every source; a later one never overtakes it
void candidates(int dst, int src, int tag, int comm, std::vector<MsgP>& out)
{
    out.clear();
    std::set<int> seen;
    for (auto& m : box[dst]) {
        if (m->comm != comm || (src != MPI_ANY_SOURCE && m->src != src) || (tag != MPI_ANY_TAG && m->tag != tag)) continue;
        if (!seen.insert(m->src).second) continue;
        if (m->avail <= tick()) out.push_back(m);
    }
    std::sort(out.begin(), out.end(), [](const MsgP& a, const MsgP& b) { return a->seq < b->seq; });
}
bool any(int dst, int src, int tag, int comm) { std::vector<MsgP> c; candidates(dst, src, tag, comm, c); return !c.empty(); }
MsgP take(int dst, int src, int tag, int comm, bool remove)
{
    std::vector<MsgP> c; candidates(dst, src, tag, comm, c);
    if (c.empty()) return nullptr;
    size_t k = 0;
    if (c.size() > 1) {
        st.wildcardChoices++;
        k = (size_t)decide('m', [&](Rng& r) { return (int64_t)r.below(c.size()); });
        if (k >= c.size()) k = 0;
        if (k) st.reordered++;
    }
    MsgP m = c[k];
    if (remove) { box[dst].remove(m); m->taken = true; }
    return m;
}
void deliver(const MsgP& m, void* buf, size_t cap, MPI_Status* s)
{
    if (m->data.size() > cap) bad("message of " + std::to_string(m->data.size()) + " bytes truncated by a receive of " + std::to_string(cap));
    if (!m->data.empty()) memcpy(buf, m->data.data(), m->data.size());
    if (s) { s->MPI_SOURCE = m->src; s->MPI_TAG = m->tag; s->MPI_ERROR = 0; s->_bytes = m->data.size(); }
    event("recv", m->src, m->tag, m->data.size());
}
MsgP post(const void* b, size_t n, int dst, int tag, MPI_Comm c, int forceSync)
{
    Rt rt;
    auto m = std::make_shared<Msg>();
    m->src = crank(c); m->tag = tag; m->comm = c; m->seq = ++g_seq;
    if (n) m->data.assign((const char*)b, (const char*)b + n);
    int real = comms[c].selfc ? me() : dst;
    int64_t rdv = decide('r', [&](Rng& r) { return (int64_t)((long)n > net.eagerLimit || r.chance(net.pRendezvous)); });
    m->sync = forceSync == 1 || (forceSync == 0 && rdv);
    int64_t d = decide('d', [&](Rng& r) { return net.maxDelay > 0 && r.chance(net.pDelay) ? (int64_t)(1 + r.below(net.maxDelay)) : (int64_t)0; });
    uint64_t av = tick() + (uint64_t)d;
    uint64_t& la = lastAvail[{ me(), real }];
    if (av < la) av = la; la = av; m->avail = av;
    st.sends++; if (m->sync) st.rendezvous++; if (d) st.delayed++;
    box[real].push_back(m);
    event("send", dst, tag, n);
    return m;
}

// --- collectives -----------------------------------------------------------------
struct Enter { Coll* c; Comm* cm; uint64_t idx; int rank; };
Enter enter(const char* kind, int root, int op, MPI_Comm comm)
{
    seam(kind);
    Rt rt;
    int n = csize(comm), r = crank(comm);
    Comm& cm = comms[comm];
    int slot = cm.selfc ? me() : r;
    uint64_t k = cm.next[slot]++;
    if (cm.selfc) k = (uint64_t)slot << 40 | k;
    Coll& c = cm.inst[k];
    if (c.arrived == 0) {
        c.kind = kind; c.root = root; c.op = op; c.in.resize(n); c.has.assign(n, 0); c.cnt.assign(n, 0); c.out.resize(n); st.collectives++;
        c.rot = (int)decide('o', [&](Rng& g) { return net.pOrder > 0 && g.chance(net.pOrder) ? (int64_t)g.below(n) : (int64_t)0; });
        if (c.rot >= n) c.rot = 0;
    }
    else if (c.kind != kind || c.root != root || c.op != op) bad(std::string("collective mismatch: ") + kind + " (root " + std::to_string(root) + ") where another rank is in " + c.kind + " (root " + std::to_string(c.root) + ")");
    c.arrived++; c.has[r] = 1;
    event(kind, k, root);
    return { &c, &cm, k, r };
}
void leave(Enter& e, int n, const char* kind)
{
    Rt rt;
    if (++e.c->left == n) e.cm->inst.erase(e.idx);
    --t_rt; seam(kind); ++t_rt;
}
bool mustWait() { Rt rt; int64_t w = decide('b', [](Rng& r) { return (int64_t)r.chance(net.pWait); }); if (w) st.waitsForced++; return w != 0; }
void put(Enter& e, const void* b, size_t n) { Rt rt; if (n) e.c->in[e.rank].assign((const char*)b, (const char*)b + n); }
void waitAll(Enter& e, int n, const char* kind) { Coll* c = e.c; block([c, n]() { return c->arrived == n; }, kind); }
void waitRank(Enter& e, int r, const char* kind) { Coll* c = e.c; block([c, r]() { return c->has[r] != 0; }, kind); }
std::vector<char> reduceAll(Enter& e, int n, MPI_Datatype t, MPI_Op op, int upto)
{
    Rt rt;
    Coll* c = e.c;
    for (int i = 0; i < n; i++) if (c->in[i].size() != c->in[0].size()) bad("reduction with different counts on different ranks");
    std::vector<char> acc; bool first = true;
    size_t cnt = c->in[0].size() / tsz(t);
    for (int i = 0; i < upto; i++) {
        int r = upto == n ? (i + c->rot) % n : i;
        if (first) { acc = c->in[r]; first = false; }
        else if (cnt) combine(acc.data(), c->in[r].data(), cnt, t, op);
    }
    return acc;
}
} // namespace

namespace sim { namespace mpi {
void reset(int nr)
{
    N = nr; box.assign(nr, {}); lastAvail.clear(); comms.clear(); reqs.clear(); g_seq = 0;
    comms[MPI_COMM_WORLD].next.assign(nr, 0);
    comms[MPI_COMM_SELF].selfc = true; comms[MPI_COMM_SELF].next.assign(nr, 0);
    nextTimer = []() { uint64_t t = ~0ull; for (auto& b : box) for (auto& m : b) if (m->avail > tick() && m->avail < t) t = m->avail; return t; };
}
std::string leftovers()
{
    std::string s;
    for (size_t d = 0; d < box.size(); d++) for (auto& m : box[d]) s += "message from rank " + std::to_string(m->src) + " to rank " + std::to_string(d) + " tag " + std::to_string(m->tag) + " never received; ";
    for (auto& c : comms) for (auto& i : c.second.inst) if (i.second.arrived != i.second.left) s += "collective " + i.second.kind + " incomplete; "; else if (i.second.arrived) s += "collective " + i.second.kind + " entered by " + std::to_string(i.second.arrived) + " ranks only; ";
    return s;
}
} }

extern "C" {
int MPI_Init(int*, char***) { return 0; }
int MPI_Init_thread(int*, char***, int r, int* p) { if (p) *p = r; return 0; }
int MPI_Query_thread(int* p) { *p = MPI_THREAD_MULTIPLE; return 0; }
int MPI_Is_thread_main(int* f) { *f = 1; return 0; }
int MPI_Initialized(int* f) { *f = 1; return 0; }
int MPI_Finalized(int* f) { *f = 0; return 0; }
int MPI_Finalize(void) { return 0; }
int MPI_Abort(MPI_Comm, int) { bad("MPI_Abort called"); }
int MPI_Comm_rank(MPI_Comm c, int* r) { csize(c); *r = crank(c); return 0; }
int MPI_Comm_size(MPI_Comm c, int* n) { *n = csize(c); return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
int MPI_Get_processor_name(char* n, int* l) { strcpy(n, "sim"); *l = 3; return 0; }
double MPI_Wtime(void) { return (double)tick() * 1e-6; }
double MPI_Wtick(void) { return 1e-6; }
int MPI_Type_size(MPI_Datatype t, int* s) { *s = (int)tsz(t); return 0; }
int MPI_Error_string(int, char* s, int* l) { strcpy(s, "error"); *l = 5; return 0; }
int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype* o) { userTypes[nextType] = n * tsz(t); *o = nextType++; return 0; }
int MPI_Type_commit(MPI_Datatype*) { return 0; }
int MPI_Type_free(MPI_Datatype* t) { *t = 0; return 0; }
int MPI_Op_create(MPI_User_function* f, int, MPI_Op* o) { userOps[nextOp] = f; *o = nextOp++; return 0; }
int MPI_Op_free(MPI_Op* o) { *o = 0; return 0; }
int MPI_Get_count(const MPI_Status* s, MPI_Datatype t, int* n) { size_t z = tsz(t); *n = s->_bytes % z ? MPI_UNDEFINED : (int)(s->_bytes / z); return 0; }
int MPI_Get_elements(const MPI_Status* s, MPI_Datatype t, int* n) { return MPI_Get_count(s, t, n); }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* o)
{
    Enter e = enter("MPI_Comm_dup", -1, 0, c); int n = csize(c);
    waitAll(e, n, "MPI_Comm_dup");
    { Rt rt; if (!e.c->computed) { e.c->computed = true; e.c->rot = nextComm++; comms[e.c->rot].selfc = comms[c].selfc; comms[e.c->rot].next.assign(N, 0); } *o = e.c->rot; }
    leave(e, n, "MPI_Comm_dup"); return 0;
}
int MPI_Comm_free(MPI_Comm* c) { *c = MPI_COMM_NULL; return 0; }
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm*) { fprintf(stderr, "MPI_Comm_split is not simulated\n"); _exit(96); }

static int doSend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, int force, const char* nm)
{
    if (dst == MPI_PROC_NULL) return 0;
    checkPeer(dst, c, nm); if (tag < 0) bad("negative tag");
    size_t z = bytes(n, t);
    seam(nm);
    MsgP m = post(b, z, dst, tag, c, force);
    if (m->sync) block([m]() { return m->taken; }, nm);
    seam(nm);
    return 0;
}
int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return doSend(b, n, t, d, tag, c, 0, "MPI_Send"); }
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return doSend(b, n, t, d, tag, c, 1, "MPI_Ssend"); }
int MPI_Bsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return doSend(b, n, t, d, tag, c, 2, "MPI_Bsend"); }
int MPI_Rsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return doSend(b, n, t, d, tag, c, 2, "MPI_Rsend"); }
int MPI_Recv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status* s)
{
    if (src == MPI_PROC_NULL) { if (s) { s->MPI_SOURCE = src; s->MPI_TAG = MPI_ANY_TAG; s->_bytes = 0; } return 0; }
    if (src != MPI_ANY_SOURCE) checkPeer(src, c, "MPI_Recv");
    size_t cap = bytes(n, t); int d = me();
    seam("MPI_Recv");
    block([=]() { return any(d, src, tag, c); }, "MPI_Recv");
    { Rt rt; MsgP m = take(d, src, tag, c, true); deliver(m, b, cap, s); }
    seam("MPI_Recv");
    return 0;
}
int MPI_Isend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request* r)
{
    if (dst != MPI_PROC_NULL) checkPeer(dst, c, "MPI_Isend");
    seam("MPI_Isend");
    Rt rt; Req q{}; q.recv = false; q.done = true;
    if (dst != MPI_PROC_NULL) { q.m = post(b, bytes(n, t), dst, tag, c, 0); q.done = !q.m->sync; }
    *r = nextReq; reqs[nextReq++] = q; return 0;
}
int MPI_Issend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request* r)
{
    checkPeer(dst, c, "MPI_Issend");
    Rt rt; Req q{}; q.recv = false; q.m = post(b, bytes(n, t), dst, tag, c, 1); *r = nextReq; reqs[nextReq++] = q; return 0;
}
int MPI_Irecv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request* r)
{
    if (src != MPI_ANY_SOURCE && src != MPI_PROC_NULL) checkPeer(src, c, "MPI_Irecv");
    Rt rt; Req q{}; q.recv = true; q.buf = b; q.cap = bytes(n, t); q.src = src; q.tag = tag; q.comm = c; q.dst = me(); q.done = src == MPI_PROC_NULL; *r = nextReq; reqs[nextReq++] = q; return 0;
}
static bool reqReady(int r) { if (!r) return true; Req& q = reqs[r]; if (q.done) return true; return q.recv ? any(q.dst, q.src, q.tag, q.comm) : q.m->taken; }
static void reqFinish(MPI_Request* r, MPI_Status* s)
{
    if (!*r) { if (s) { s->MPI_SOURCE = MPI_ANY_SOURCE; s->MPI_TAG = MPI_ANY_TAG; s->_bytes = 0; } return; }
    Rt rt; Req& q = reqs[*r];
    if (!q.done && q.recv) { MsgP m = take(q.dst, q.src, q.tag, q.comm, true); deliver(m, q.buf, q.cap, &q.s); }
    if (s) *s = q.s; reqs.erase(*r); *r = 0;
}
int MPI_Wait(MPI_Request* r, MPI_Status* s) { seam("MPI_Wait"); int k = *r; block([k]() { return reqReady(k); }, "MPI_Wait"); reqFinish(r, s); return 0; }
int MPI_Waitall(int n, MPI_Request* r, MPI_Status* s)
{
    seam("MPI_Waitall");
    std::vector<char> d; { Rt rt; d.assign(n, 0); }
    for (int k = 0; k < n; k++) {   // complete in posting order (receives match in order)
        int q = r[k]; block([q]() { return reqReady(q); }, "MPI_Waitall"); reqFinish(&r[k], s ? &s[k] : nullptr);
    }
    return 0;
}
int MPI_Waitany(int n, MPI_Request* r, int* idx, MPI_Status* s)
{
    seam("MPI_Waitany");
    bool act = false; for (int k = 0; k < n; k++) if (r[k]) act = true;
    if (!act) { *idx = MPI_UNDEFINED; return 0; }
    block([=]() { for (int k = 0; k < n; k++) if (r[k] && reqReady(r[k])) return true; return false; }, "MPI_Waitany");
    Rt rt; std::vector<int> c; for (int k = 0; k < n; k++) if (r[k] && reqReady(r[k])) c.push_back(k);
    size_t k = c.size() > 1 ? (size_t)decide('m', [&](Rng& g) { return (int64_t)g.below(c.size()); }) : 0; if (k >= c.size()) k = 0;
    *idx = c[k]; reqFinish(&r[c[k]], s); return 0;
}
int MPI_Waitsome(int n, MPI_Request* r, int* out, int* idx, MPI_Status* s) { int i; MPI_Waitany(n, r, &i, s); if (i == MPI_UNDEFINED) { *out = MPI_UNDEFINED; return 0; } *out = 1; idx[0] = i; return 0; }
int MPI_Test(MPI_Request* r, int* f, MPI_Status* s) { seam("MPI_Test"); { Rt rt; *f = reqReady(*r); } if (*f) reqFinish(r, s); return 0; }
int MPI_Testall(int n, MPI_Request* r, int* f, MPI_Status* s) { seam("MPI_Testall"); { Rt rt; *f = 1; for (int k = 0; k < n; k++) if (!reqReady(r[k])) *f = 0; } if (*f) MPI_Waitall(n, r, s); return 0; }
int MPI_Testany(int n, MPI_Request* r, int* idx, int* f, MPI_Status* s) { seam("MPI_Testany"); *f = 0; for (int k = 0; k < n; k++) if (r[k] && reqReady(r[k])) { *f = 1; *idx = k; reqFinish(&r[k], s); break; } return 0; }
int MPI_Request_free(MPI_Request* r) { *r = 0; return 0; }
int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype st_, int d, int stag, void* rb, int rn, MPI_Datatype rt_, int src, int rtag, MPI_Comm c, MPI_Status* s)
{ MPI_Request q; MPI_Isend(sb, sn, st_, d, stag, c, &q); MPI_Recv(rb, rn, rt_, src, rtag, c, s); return MPI_Wait(&q, nullptr); }
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status* s)
{
    int d = me(); seam("MPI_Probe"); block([=]() { return any(d, src, tag, c); }, "MPI_Probe");
    Rt rt; MsgP m = take(d, src, tag, c, false); if (s) { s->MPI_SOURCE = m->src; s->MPI_TAG = m->tag; s->MPI_ERROR = 0; s->_bytes = m->data.size(); } return 0;
}
int MPI_Iprobe(int src, int tag, MPI_Comm c, int* f, MPI_Status* s) { int d = me(); seam("MPI_Iprobe"); { Rt rt; *f = any(d, src, tag, c); } if (*f) MPI_Probe(src, tag, c, s); return 0; }

int MPI_Barrier(MPI_Comm c) { Enter e = enter("MPI_Barrier", -1, 0, c); int n = csize(c); waitAll(e, n, "MPI_Barrier"); leave(e, n, "MPI_Barrier"); return 0; }
int MPI_Bcast(void* b, int cnt, MPI_Datatype t, int root, MPI_Comm c)
{
    checkPeer(root, c, "MPI_Bcast"); size_t z = bytes(cnt, t); int n = csize(c);
    Enter e = enter("MPI_Bcast", root, 0, c);
    if (e.rank == root) { put(e, b, z); e.c->cnt[root] = (int)z; }
    bool w = mustWait();
    if (w) waitAll(e, n, "MPI_Bcast");
    if (e.rank != root) {
        waitRank(e, root, "MPI_Bcast");
        if (e.c->in[root].size() != z) bad("MPI_Bcast of " + std::to_string(e.c->in[root].size()) + " bytes received as " + std::to_string(z));
        if (z) memcpy(b, e.c->in[root].data(), z);
    }
    leave(e, n, "MPI_Bcast"); return 0;
}
int MPI_Reduce(const void* s, void* r, int cnt, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c)
{
    checkPeer(root, c, "MPI_Reduce"); size_t z = bytes(cnt, t); int n = csize(c);
    Enter e = enter("MPI_Reduce", root, op, c);
    put(e, s == MPI_IN_PLACE ? r : s, z);
    bool w = mustWait();
    if (e.rank == root) { waitAll(e, n, "MPI_Reduce"); std::vector<char> a = reduceAll(e, n, t, op, n); if (z) memcpy(r, a.data(), z); }
    else if (w) waitAll(e, n, "MPI_Reduce");
    leave(e, n, "MPI_Reduce"); return 0;
}
int MPI_Allreduce(const void* s, void* r, int cnt, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
    size_t z = bytes(cnt, t); int n = csize(c);
    Enter e = enter("MPI_Allreduce", -1, op, c);
    put(e, s == MPI_IN_PLACE ? r : s, z); waitAll(e, n, "MPI_Allreduce");
    std::vector<char> a = reduceAll(e, n, t, op, n); if (z) memcpy(r, a.data(), z);
    leave(e, n, "MPI_Allreduce"); return 0;
}
int MPI_Scan(const void* s, void* r, int cnt, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
    size_t z = bytes(cnt, t); int n = csize(c); Enter e = enter("MPI_Scan", -1, op, c);
    put(e, s == MPI_IN_PLACE ? r : s, z); waitAll(e, n, "MPI_Scan");
    std::vector<char> a = reduceAll(e, n, t, op, e.rank + 1); if (z) memcpy(r, a.data(), z);
    leave(e, n, "MPI_Scan"); return 0;
}
int MPI_Exscan(const void* s, void* r, int cnt, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
    size_t z = bytes(cnt, t); int n = csize(c); Enter e = enter("MPI_Exscan", -1, op, c);
    put(e, s == MPI_IN_PLACE ? r : s, z); waitAll(e, n, "MPI_Exscan");
    if (e.rank) { std::vector<char> a = reduceAll(e, n, t, op, e.rank); if (z && a.size() == z) memcpy(r, a.data(), z); }
    leave(e, n, "MPI_Exscan"); return 0;
}
int MPI_Reduce_scatter(const void* s, void* r, const int* cnt, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
    int n = csize(c); long tot = 0; for (int i = 0; i < n; i++) tot += cnt[i];
    Enter e = enter("MPI_Reduce_scatter", -1, op, c);
    put(e, s == MPI_IN_PLACE ? r : s, bytes(tot, t)); waitAll(e, n, "MPI_Reduce_scatter");
    std::vector<char> a = reduceAll(e, n, t, op, n); size_t o = 0; for (int i = 0; i < e.rank; i++) o += cnt[i]; if (cnt[e.rank]) memcpy(r, a.data() + o * tsz(t), bytes(cnt[e.rank], t));
    leave(e, n, "MPI_Reduce_scatter"); return 0;
}
int MPI_Reduce_scatter_block(const void* s, void* r, int cnt, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{ std::vector<int> v(csize(c), cnt); return MPI_Reduce_scatter(s, r, v.data(), t, op, c); }
static int gatherImpl(const char* kind, const void* s, int sn, MPI_Datatype st_, void* r, const int* rn, int rn1, const int* disp, MPI_Datatype rt_, int root, MPI_Comm c)
{
    int n = csize(c); bool all = root < 0; if (!all) checkPeer(root, c, kind);
    Enter e = enter(kind, root, 0, c);
    bool mine = all || e.rank == root;
    if (s == MPI_IN_PLACE) { size_t k = rn ? rn[e.rank] : rn1, o = disp ? disp[e.rank] : (size_t)e.rank * rn1; put(e, (char*)r + o * tsz(rt_), bytes((long)k, rt_)); }
    else put(e, s, bytes(sn, st_));
    bool w = all ? false : mustWait();
    if (mine || w) waitAll(e, n, kind);
    if (mine) for (int i = 0; i < n; i++) {
        size_t cap = bytes(rn ? rn[i] : rn1, rt_), o = (disp ? (size_t)disp[i] : (size_t)i * (rn ? 0 : rn1)) * tsz(rt_);
        if (e.c->in[i].size() > cap) bad(std::string(kind) + ": contribution of rank " + std::to_string(i) + " truncated");
        if (e.c->in[i].size() != cap) bad(std::string(kind) + ": contribution of rank " + std::to_string(i) + " has " + std::to_string(e.c->in[i].size()) + " bytes where " + std::to_string(cap) + " are expected");
        if (cap) memcpy((char*)r + o, e.c->in[i].data(), e.c->in[i].size());
    }
    leave(e, n, kind); return 0;
}
int MPI_Gather(const void* s, int sn, MPI_Datatype st_, void* r, int rn, MPI_Datatype rt_, int root, MPI_Comm c) { return gatherImpl("MPI_Gather", s, sn, st_, r, nullptr, rn, nullptr, rt_, root, c); }
int MPI_Gatherv(const void* s, int sn, MPI_Datatype st_, void* r, const int* rn, const int* d, MPI_Datatype rt_, int root, MPI_Comm c) { return gatherImpl("MPI_Gatherv", s, sn, st_, r, rn, 0, d, rt_, root, c); }
int MPI_Allgather(const void* s, int sn, MPI_Datatype st_, void* r, int rn, MPI_Datatype rt_, MPI_Comm c) { return gatherImpl("MPI_Allgather", s, sn, st_, r, nullptr, rn, nullptr, rt_, -1, c); }
int MPI_Allgatherv(const void* s, int sn, MPI_Datatype st_, void* r, const int* rn, const int* d, MPI_Datatype rt_, MPI_Comm c) { return gatherImpl("MPI_Allgatherv", s, sn, st_, r, rn, 0, d, rt_, -1, c); }
static int scatterImpl(const char* kind, const void* s, const int* sn, int sn1, const int* disp, MPI_Datatype st_, void* r, int rn, MPI_Datatype rt_, int root, MPI_Comm c)
{
    int n = csize(c); checkPeer(root, c, kind);
    Enter e = enter(kind, root, 0, c);
    if (e.rank == root) {
        Rt rt;
        for (int i = 0; i < n; i++) { size_t z = bytes(sn ? sn[i] : sn1, st_), o = (disp ? (size_t)disp[i] : (size_t)i * (sn ? 0 : sn1)) * tsz(st_); e.c->out[i].assign((const char*)s + o, (const char*)s + o + z); }
        e.c->computed = true;
    }
    bool w = mustWait();
    if (w) waitAll(e, n, kind);
    waitRank(e, root, kind);
    if (!(r == MPI_IN_PLACE && e.rank == root)) {
        size_t cap = bytes(rn, rt_);
        if (e.c->out[e.rank].size() > cap) bad(std::string(kind) + ": truncated");
        if (e.c->out[e.rank].size() != cap) bad(std::string(kind) + ": counts differ");
        if (cap) memcpy(r, e.c->out[e.rank].data(), cap);
    }
    leave(e, n, kind); return 0;
}
int MPI_Scatter(const void* s, int sn, MPI_Datatype st_, void* r, int rn, MPI_Datatype rt_, int root, MPI_Comm c) { return scatterImpl("MPI_Scatter", s, nullptr, sn, nullptr, st_, r, rn, rt_, root, c); }
int MPI_Scatterv(const void* s, const int* sn, const int* d, MPI_Datatype st_, void* r, int rn, MPI_Datatype rt_, int root, MPI_Comm c) { return scatterImpl("MPI_Scatterv", s, sn, 0, d, st_, r, rn, rt_, root, c); }
int MPI_Alltoallv(const void* s, const int* sn, const int* sd, MPI_Datatype st_, void* r, const int* rn, const int* rd, MPI_Datatype rt_, MPI_Comm c)
{
    int n = csize(c); Enter e = enter("MPI_Alltoallv", -1, 0, c);
    { Rt rt; std::vector<char>& o = e.c->in[e.rank]; for (int i = 0; i < n; i++) { size_t z = bytes(sn[i], st_); unsigned long h = z; o.insert(o.end(), (char*)&h, (char*)&h + 8); const char* p = (const char*)s + (size_t)sd[i] * tsz(st_); o.insert(o.end(), p, p + z); } }
    waitAll(e, n, "MPI_Alltoallv");
    for (int i = 0; i < n; i++) { const char* p = e.c->in[i].data(); unsigned long h = 0; for (int j = 0; j <= e.rank; j++) { memcpy(&h, p, 8); p += 8; if (j < e.rank) p += h; } if (h != bytes(rn[i], rt_)) bad("MPI_Alltoallv: counts differ"); memcpy((char*)r + (size_t)rd[i] * tsz(rt_), p, h); }
    leave(e, n, "MPI_Alltoallv"); return 0;
}
int MPI_Alltoall(const void* s, int sn, MPI_Datatype st_, void* r, int rn, MPI_Datatype rt_, MPI_Comm c)
{ int n = csize(c); std::vector<int> a(n, sn), b(n, rn), d(n), f(n); for (int i = 0; i < n; i++) { d[i] = i * sn; f[i] = i * rn; } return MPI_Alltoallv(s, a.data(), d.data(), st_, r, b.data(), f.data(), rt_, c); }
}
