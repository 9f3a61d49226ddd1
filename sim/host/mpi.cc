// The message layer: every behaviour the MPI standard allows (buffering or
// not, early or late completion, any arrival order between pairs, any choice
// among completed requests), decided by draws, and the checks of the contract.
#include "sim.hh"
#include "../inc/mpi.h"
#include <algorithm>
#include <deque>
#include <cstdlib>
#include <cmath>

struct Msg; struct Coll;
struct sim_req_s {
    enum { SEND, RECV, COLL, FILEOP } kind;
    Rank *rank;
    u8 *buf; size_t cap;
    int peer, tag, ctx;
    bool done, active, freed, pinned;
    MPI_Status st;
    Msg *msg;
    std::vector<u8> saved;
    u64 collKey;
    u64 id;
    // persistent: what to start again
    bool persist; int pn; MPI_Datatype pt; MPI_Comm pc; int pmode;
    int rc;
    int (*finish)(sim_req_s *);   // what completes the operation, in the caller's own context
    Coll *coll; void *out; size_t outn; const void *src; MPI_File fh; u64 off; bool wr;
};
typedef sim_req_s Req;
struct Msg {
    u64 id; int src, dst, tag, ctx; size_t n;
    const u8 *buf; u64 h; std::vector<u8> data;
    bool captured, arrived, matched, consumed; int proto, missed;
    Req *sreq; Req *rreq;
};
struct Coll {
    int kind; int count; int type; int op; int root; int ctx;
    std::string extra;
    u32 mask; int n; int left;
    std::vector<u8> in[MAXRANK];
    std::vector<u8> outp;
    int result; bool complete;
};
static std::vector<Msg *> allMsgs;
static std::deque<Msg *> unexpected[MAXRANK];
static std::deque<Req *> posted[MAXRANK];
static std::set<Req *> liveReqs[MAXRANK];
static std::set<Msg *> claimed;   // by a matched probe, not received yet
static u64 lastArr[MAXRANK][MAXRANK];
static std::map<std::pair<int, u64>, Coll> colls;
static std::map<std::pair<int, int>, u64> collSeq;   // (ctx, rank)
static u64 nextMsg, nextReq;
static int nextCtx;
static std::vector<int> ctxOf;   // dup'ed communicators

static std::map<int, std::vector<int>> groups;   // members of a communicator, when not all
static std::vector<size_t> derived;
void mpiReset() {
    allMsgs.clear(); claimed.clear(); colls.clear(); collSeq.clear(); groups.clear(); derived.clear();
    nextMsg = nextReq = 0; nextCtx = 0x200;
    for (int i = 0; i < MAXRANK; i++) { unexpected[i].clear(); posted[i].clear(); liveReqs[i].clear(); for (int j = 0; j < MAXRANK; j++) lastArr[i][j] = 0; }
}
static u64 hashBytes(const u8 *p, size_t n) {
    u64 h = 0xcbf29ce484222325ull ^ n;
    size_t i = 0;
    for (; i + 8 <= n; i += 8) { u64 v; memcpy(&v, p + i, 8); h = (h ^ v) * 0x9fb21c651e98df25ull; h ^= h >> 29; }
    for (; i < n; i++) h = (h ^ p[i]) * 0x100000001b3ull;
    return h;
}
void callCost(const char *) {
    Rank *r = cur->rank;
    u64 c = 50;
    if (cfg.costJit) c += drawN(S_COST, cfg.costJit);
    c = (u64)(c * r->speed);
    if (st.stalls < 30 && chance(S_STALL, cfg.stallPm)) {
        st.stalls++; st.faultsFired[F_STALL]++;
        c += 20000 + drawN(S_STALL, 60000);
    }
    fibSleep(c);
}
static void touch(const void *p, size_t n, bool w) {
    if (!p || !n) return;
    ProgGuard g;
    memAccess((uintptr_t)p, n, w, false, nullptr);
}
[[noreturn]] static void fatal(const char *cls, const std::string &d) {
    violate(cls, "rank %d: %s", cur->rank->id, d.c_str());
    jobEnd(J_FAILED, cur->rank->id, 1, "fatal MPI error", d);
}
// a process that polls in vain again and again is slowed down, so that waiting
// for a slow one does not use up the run
static void polled(bool hit) {
    if (hit) { cur->idle = 0; return; }
    if (++cur->idle > 10) fibSleep(std::min<u64>((cur->idle - 10) * 10, 1500));
}
struct Call {
    Rank *r; HostGuard g; bool owner;
    Call(const char *name, bool needInit = true) : r(cur->rank), owner(false) {
        st.mpiCalls[r->id]++;
        if (needInit && (!r->inited || r->finalized))
            fatal("mpi.usage", std::string(name) + (r->finalized ? " after MPI_Finalize" : " before MPI_Init"));
        if (needInit) {
            bool inTeam = multi(cur);
            if (r->threadLevel < MPI_THREAD_SERIALIZED && inTeam && cur->tid != 0)
                violate("mpi.thread", "%s called from thread %d but the program asked for thread level %s", name, cur->tid,
                        r->threadLevel == MPI_THREAD_SINGLE ? "SINGLE" : "FUNNELED");
            if (r->threadLevel < MPI_THREAD_MULTIPLE) {
                if (r->inMpi > 0 && r->mpiOwner != cur)
                    violate("mpi.thread", "%s called while another thread is inside the message layer", name);
                if (inTeam && r->threadLevel == MPI_THREAD_SERIALIZED && !gapMode)
                    for (int u = 0; u < MAXTHR; u++)
                        if (u != cur->tid && r->mpiClk[u] > cur->vc[u])
                            violate("mpi.thread", "%s called without ordering after another thread's call", name);
            }
            r->inMpi++;
            r->mpiOwner = cur;
            owner = true;
        }
        callCost(name);
    }
    ~Call() {
        if (owner) {
            r->inMpi--;
            if (multi(cur)) r->mpiClk[cur->tid] = cur->vc[cur->tid];
        }
    }
};
static size_t tsize(MPI_Datatype t) { intptr_t v = (intptr_t)t; return v >= 0x100000 ? derived[(size_t)(v - 0x100000) >> 8] : (size_t)(v & 0xff); }
static int ctxId(MPI_Comm c) {
    int v = (int)(intptr_t)c;
    if (v == 0x101 || v == 0x102 || (v >= 0x200 && v < nextCtx)) return v;
    fatal("mpi.usage", "invalid communicator");
}
static bool isSelf(int ctx) { return ctx == 0x102; }
static int csize(int ctx) { if (isSelf(ctx)) return 1; auto it = groups.find(ctx); return it == groups.end() ? cfg.ranks : (int)it->second.size(); }
static int crankOf(int ctx, int world) {
    auto it = groups.find(ctx);
    if (it == groups.end()) return world;
    for (size_t i = 0; i < it->second.size(); i++) if (it->second[i] == world) return (int)i;
    fatal("mpi.usage", "a communicator is used by a process that is no member");
}
static int crank(int ctx) { return isSelf(ctx) ? 0 : crankOf(ctx, cur->rank->id); }
static int world(int ctx, int r) { if (r < 0) return r; if (isSelf(ctx)) return cur->rank->id; auto it = groups.find(ctx); return it == groups.end() ? r : it->second[r]; }

// ---------------------------------------------------------------- point to point
static void finishSend(Msg *m) {
    if (m->sreq && !m->sreq->done) { m->sreq->done = true; rankChanged(&ranks[m->src]); }
}
static void capture(Msg *m) {
    if (m->captured) return;
    if (hashBytes(m->buf, m->n) != m->h)
        violate("mpi.sendbuf.write", "the buffer of an unfinished send from rank %d to %d (tag %d, %zu bytes) was modified",
                m->src, m->dst, m->tag, m->n);
    m->data.assign(m->buf, m->buf + m->n);
    m->captured = true;
}
static void evCapture(void *p) { Msg *m = (Msg *)p; if (!m->captured) { capture(m); finishSend(m); } }
static void evComplete(void *p) {
    Msg *m = (Msg *)p;
    Req *q = m->rreq;
    if (!q) return;
    if (!m->captured) { capture(m); finishSend(m); }
    if (m->n > q->cap) {
        violate("mpi.truncate", "rank %d receives %zu bytes from rank %d (tag %d) into a buffer of %zu", m->dst, m->n, m->src, m->tag, q->cap);
        q->st.MPI_ERROR = MPI_ERR_TRUNCATE;
    }
    size_t k = m->n < q->cap ? m->n : q->cap;
    if (k) memcpy(q->buf, m->data.data(), k);
    if (q->cap > k) memcpy(q->buf + k, q->saved.data() + k, q->cap - k);
    q->st.MPI_SOURCE = isSelf(m->ctx) ? 0 : crankOf(m->ctx, m->src); q->st.MPI_TAG = m->tag; q->st.bytes = k;
    q->done = true;
    m->consumed = true;
    std::vector<u8>().swap(m->data);
    logEvent(0x33, m->id, q->id);
    schedHash = hash64(schedHash ^ (m->id << 8) ^ 0x33);
    rankChanged(&ranks[m->dst]);
}
static void match(Msg *m, Req *q) {
    m->matched = true; m->rreq = q; q->msg = m;
    u64 d = 0;
    if (m->proto == 2 && !m->captured) { d += 30; u64 x = cfg.delayMean ? draw(S_DELAY) : 0; if (x) d += (x >> 8) % (2 * cfg.delayMean + 1); }
    if (cfg.lateRecv) { u64 x = draw(S_LATE); if (x) { st.lateRecv++; d += (x >> 8) % 3000; } }
    if (d) at(d, evComplete, m); else evComplete(m);
}
static bool fits(const Msg *m, int src, int tag, int ctx) {
    return m->ctx == ctx && (src == MPI_ANY_SOURCE || src == m->src) && (tag == MPI_ANY_TAG ? m->tag >= 0 : tag == m->tag);
}
static void evArrive(void *p) {
    Msg *m = (Msg *)p;
    m->arrived = true;
    auto &pq = posted[m->dst];
    for (auto it = pq.begin(); it != pq.end(); ++it)
        if (fits(m, (*it)->peer, (*it)->tag, (*it)->ctx)) {
            Req *q = *it;
            pq.erase(it);
            match(m, q);
            return;
        }
    unexpected[m->dst].push_back(m);
    rankChanged(&ranks[m->dst]);
}
static Req *newReq(int kind) {
    Req *q = new Req();
    q->kind = (decltype(q->kind))kind; q->rank = cur->rank; q->active = true; q->id = nextReq++;
    liveReqs[cur->rank->id].insert(q);
    return q;
}
static void checkArgs(const char *nm, int n, int peer, int tag, int ctx, bool recv) {
    if (n < 0) fatal("mpi.usage", std::string(nm) + ": negative count");
    if (peer == MPI_PROC_NULL) return;
    if ((peer < 0 || peer >= csize(ctx)) && !(recv && peer == MPI_ANY_SOURCE)) fatal("mpi.usage", std::string(nm) + ": invalid rank " + std::to_string(peer));
    if (tag < 0 && !(recv && tag == MPI_ANY_TAG)) fatal("mpi.usage", std::string(nm) + ": invalid tag");
}
static Req *postSend(const void *buf, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, bool sync, bool blocking, Req *into = nullptr) {
    int ctx = ctxId(c);
    checkArgs("send", n, dst, tag, ctx, false);
    size_t bytes = (size_t)n * tsize(t);
    Req *q = into ? into : newReq(Req::SEND);
    q->buf = (u8 *)buf; q->cap = bytes; q->peer = dst; q->tag = tag; q->ctx = ctx;
    if (dst == MPI_PROC_NULL) { q->done = true; return q; }
    dst = world(ctx, dst);
    touch(buf, bytes, false);
    Msg *m = new Msg();
    m->id = nextMsg++; m->src = cur->rank->id; m->dst = dst; m->tag = tag; m->ctx = ctx; m->n = bytes;
    m->buf = (const u8 *)buf; m->h = hashBytes(m->buf, bytes); m->sreq = q;
    q->msg = m;
    allMsgs.push_back(m);
    int proto = sync ? 2 : cfg.protoMode;
    if (proto == 3) { u64 d = draw(S_PROTO); proto = d ? (int)((d >> 16) % 3) : 0; }
    m->proto = proto;
    u64 lat = 100, d = cfg.delayMean ? draw(S_DELAY) : 0;
    if (d) { u64 x = (d >> 8) % (2 * cfg.delayMean + 1); if ((d >> 50) % 16 == 0) x *= 12; lat += x; }
    u64 &la = lastArr[m->src][m->dst];
    u64 t0 = now + lat;
    if (t0 <= la) t0 = la + 1;
    la = t0;
    st.msgs++; st.bytes += bytes;
    novelty(((u64)m->src << 52) ^ ((u64)dst << 44) ^ ((u64)(u32)ctx << 32) ^ (u32)tag, m->h ^ bytes);
    logEvent(0x31, m->id, ((u64)dst << 40) ^ ((u64)tag << 20) ^ bytes);
    logEvent(0x3a, m->h);
    if (proto == 0) { capture(m); q->done = true; st.eager++; }
    else if (proto == 1) { u64 x = draw(S_LATE); at(1 + (x ? (x >> 8) % 2000 : 0), evCapture, m); st.lateCap++; }
    else st.rndv++;
    at(t0 - now, evArrive, m);
    if (!blocking) { pinAdd(cur->rank, buf, bytes, false); q->pinned = true; }
    return q;
}
static Req *postRecv(void *buf, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, bool blocking, Req *into = nullptr) {
    int ctx = ctxId(c);
    checkArgs("receive", n, src, tag, ctx, true);
    size_t cap = (size_t)n * tsize(t);
    Req *q = into ? into : newReq(Req::RECV);
    q->buf = (u8 *)buf; q->cap = cap; q->peer = world(ctx, src); q->tag = tag; q->ctx = ctx;
    if (src == MPI_PROC_NULL) { q->done = true; q->st.MPI_SOURCE = MPI_PROC_NULL; q->st.MPI_TAG = MPI_ANY_TAG; return q; }
    touch(buf, cap, true);
    q->saved.assign((u8 *)buf, (u8 *)buf + cap);
    if (cap) memset(buf, 0xf7, cap);
    if (!blocking) { pinAdd(cur->rank, buf, cap, true); q->pinned = true; }
    logEvent(0x32, q->id, ((u64)(src + 8) << 40) ^ ((u64)(tag + 8) << 20) ^ cap);
    auto &uq = unexpected[cur->rank->id];
    for (auto it = uq.begin(); it != uq.end(); ++it)
        if (fits(*it, q->peer, tag, ctx)) {
            Msg *m = *it;
            uq.erase(it);
            match(m, q);
            return q;
        }
    posted[cur->rank->id].push_back(q);
    return q;
}
static void retire(Req *q, MPI_Status *s) {
    if (s != MPI_STATUS_IGNORE) { int e = s->MPI_ERROR; *s = q->st; s->MPI_ERROR = e; }
    if (q->pinned) { pinDel(q->rank, q->buf, q->cap, q->kind == Req::RECV); q->pinned = false; }
    if (q->kind == Req::SEND && q->msg && q->msg->captured == false && !q->msg->consumed) {}
    if (q->kind == Req::RECV && q->st.bytes) touch(q->buf, q->st.bytes, true);
    bool trunc = q->st.MPI_ERROR == MPI_ERR_TRUNCATE;
    if (q->msg && q->kind == Req::SEND) q->msg->sreq = nullptr;
    if (q->msg && q->kind == Req::RECV) q->msg->rreq = nullptr;
    if (q->persist) { q->active = false; q->msg = nullptr; q->done = true; q->st = MPI_Status(); std::vector<u8>().swap(q->saved); }
    else { liveReqs[q->rank->id].erase(q); delete q; }
    if (trunc) jobEnd(J_FAILED, cur->rank->id, 1, "fatal MPI error", "message truncated");
}
static bool isDone(Req *q) { return q->done || (q->coll && q->coll->complete); }
static void waitReq(Req *q, const char *where) { while (!isDone(q)) waitOn(cur->rank, where); }
static Req *chk(MPI_Request r) {
    if (!liveReqs[cur->rank->id].count(r)) fatal("mpi.usage", "invalid request handle");
    return r;
}
static bool live(MPI_Request r) { return r && chk(r)->active; }
static int take(MPI_Request *r, MPI_Status *s) {   // the end of an operation that is done
    Req *q = *r;
    if (!q->persist) *r = MPI_REQUEST_NULL;
    int rc = q->finish ? q->finish(q) : MPI_SUCCESS;
    retire(q, s);
    return rc;
}
static void emptyStatus(MPI_Status *s) { if (s != MPI_STATUS_IGNORE) { s->MPI_SOURCE = MPI_ANY_SOURCE; s->MPI_TAG = MPI_ANY_TAG; s->bytes = 0; } }

extern "C" {
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { Call k("MPI_Send"); Req *q = postSend(b, n, t, d, tag, c, false, true); waitReq(q, "MPI_Send"); retire(q, MPI_STATUS_IGNORE); return MPI_SUCCESS; }
int MPI_Rsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return MPI_Send(b, n, t, d, tag, c); }
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { Call k("MPI_Ssend"); Req *q = postSend(b, n, t, d, tag, c, true, true); waitReq(q, "MPI_Ssend"); retire(q, MPI_STATUS_IGNORE); return MPI_SUCCESS; }
int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status *stt) { Call k("MPI_Recv"); Req *q = postRecv(b, n, t, s, tag, c, true); waitReq(q, "MPI_Recv"); retire(q, stt); return MPI_SUCCESS; }
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { Call k("MPI_Isend"); *r = postSend(b, n, t, d, tag, c, false, false); return MPI_SUCCESS; }
int MPI_Issend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { Call k("MPI_Issend"); *r = postSend(b, n, t, d, tag, c, true, false); return MPI_SUCCESS; }
int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *r) { Call k("MPI_Irecv"); *r = postRecv(b, n, t, s, tag, c, false); return MPI_SUCCESS; }
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype stt, int d, int stag, void *rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status *status) {
    Call k("MPI_Sendrecv");
    Req *a = postRecv(rb, rn, rt, s, rtag, c, true), *b = postSend(sb, sn, stt, d, stag, c, false, true);
    waitReq(b, "MPI_Sendrecv"); waitReq(a, "MPI_Sendrecv");
    retire(b, MPI_STATUS_IGNORE); retire(a, status);
    return MPI_SUCCESS;
}
int MPI_Wait(MPI_Request *r, MPI_Status *s) {
    Call k("MPI_Wait");
    if (!live(*r)) { emptyStatus(s); return MPI_SUCCESS; }
    waitReq(*r, "MPI_Wait");
    return take(r, s);
}
// the error of one of several operations; its own is in the status
static int several(int rc, int one, MPI_Status *s) {
    if (s && one) s->MPI_ERROR = one;
    return one ? MPI_ERR_IN_STATUS : rc;
}
int MPI_Waitall(int n, MPI_Request r[], MPI_Status *s) {
    Call k("MPI_Waitall");
    int rc = MPI_SUCCESS;
    for (int i = 0; i < n; i++) if (live(r[i])) waitReq(r[i], "MPI_Waitall");
    for (int i = 0; i < n; i++) {
        if (live(r[i])) rc = several(rc, take(r + i, s ? s + i : s), s ? s + i : s);
        else emptyStatus(s ? s + i : s);
    }
    return rc;
}
static int pickDone(int n, MPI_Request r[], bool *any) {
    std::vector<int> d;
    *any = false;
    for (int i = 0; i < n; i++) if (live(r[i])) { *any = true; if (isDone(r[i])) d.push_back(i); }
    if (d.empty()) return -1;
    u64 x = d.size() > 1 ? draw(S_PICK) : 0;
    if (x && (x >> 8) % d.size()) st.reorder++;
    return d[x ? (x >> 8) % d.size() : 0];
}
int MPI_Waitany(int n, MPI_Request r[], int *idx, MPI_Status *s) {
    Call k("MPI_Waitany");
    for (;;) {
        bool any; int i = pickDone(n, r, &any);
        if (!any) { *idx = MPI_UNDEFINED; emptyStatus(s); return MPI_SUCCESS; }
        if (i >= 0) { *idx = i; return take(r + i, s); }
        waitOn(cur->rank, "MPI_Waitany");
    }
}
static int someOf(int n, MPI_Request r[], int *oc, int ix[], MPI_Status *s, bool block) {
    for (;;) {
        std::vector<int> d; bool any = false;
        for (int i = 0; i < n; i++) if (live(r[i])) { any = true; if (isDone(r[i])) d.push_back(i); }
        if (!any) { *oc = MPI_UNDEFINED; return MPI_SUCCESS; }
        if (!d.empty() || !block) {
            if (d.size() > 1) { u64 x = draw(S_PICK); if (x) { size_t keep = 1 + (x >> 8) % d.size(); d.resize(keep); } }
            *oc = (int)d.size();
            if (!block) polled(!d.empty());
            int rc = MPI_SUCCESS;
            for (size_t j = 0; j < d.size(); j++) { ix[j] = d[j]; rc = several(rc, take(r + d[j], s ? s + j : s), s ? s + j : s); }
            return rc;
        }
        waitOn(cur->rank, "MPI_Waitsome");
    }
}
int MPI_Waitsome(int n, MPI_Request r[], int *oc, int ix[], MPI_Status *s) { Call k("MPI_Waitsome"); return someOf(n, r, oc, ix, s, true); }
int MPI_Testsome(int n, MPI_Request r[], int *oc, int ix[], MPI_Status *s) { Call k("MPI_Testsome"); return someOf(n, r, oc, ix, s, false); }
int MPI_Test(MPI_Request *r, int *flag, MPI_Status *s) {
    Call k("MPI_Test");
    if (!live(*r)) { *flag = 1; emptyStatus(s); return MPI_SUCCESS; }
    *flag = isDone(*r);
    polled(*flag);
    return *flag ? take(r, s) : MPI_SUCCESS;
}
int MPI_Testall(int n, MPI_Request r[], int *flag, MPI_Status *s) {
    Call k("MPI_Testall");
    *flag = 1;
    int rc = MPI_SUCCESS;
    for (int i = 0; i < n; i++) if (live(r[i]) && !isDone(r[i])) *flag = 0;
    polled(*flag);
    if (*flag) for (int i = 0; i < n; i++) { if (live(r[i])) rc = several(rc, take(r + i, s ? s + i : s), s ? s + i : s); else emptyStatus(s ? s + i : s); }
    return rc;
}
int MPI_Testany(int n, MPI_Request r[], int *idx, int *flag, MPI_Status *s) {
    Call k("MPI_Testany");
    bool any; int i = pickDone(n, r, &any);
    if (!any) { *flag = 1; *idx = MPI_UNDEFINED; emptyStatus(s); return MPI_SUCCESS; }
    *flag = i >= 0;
    polled(*flag);
    *idx = i >= 0 ? i : MPI_UNDEFINED;
    return i >= 0 ? take(r + i, s) : MPI_SUCCESS;
}
int MPI_Request_get_status(MPI_Request r, int *flag, MPI_Status *s) {
    Call k("MPI_Request_get_status");
    if (!live(r)) { *flag = 1; emptyStatus(s); return MPI_SUCCESS; }
    *flag = isDone(r);
    polled(*flag);
    if (*flag && s) *s = r->st;
    return MPI_SUCCESS;
}
int MPI_Test_cancelled(const MPI_Status *s, int *flag) { *flag = s->cancelled; return MPI_SUCCESS; }
int MPI_Irsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { return MPI_Isend(b, n, t, d, tag, c, r); }
// a buffered send is copied at once
static Req *buffered(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
    int m = cfg.protoMode; cfg.protoMode = 0;
    Req *q = postSend(b, n, t, d, tag, c, false, true);
    cfg.protoMode = m;
    return q;
}
int MPI_Bsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { Call k("MPI_Bsend"); retire(buffered(b, n, t, d, tag, c), MPI_STATUS_IGNORE); return MPI_SUCCESS; }
int MPI_Ibsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { Call k("MPI_Ibsend"); *r = buffered(b, n, t, d, tag, c); return MPI_SUCCESS; }
static std::map<int, std::pair<void *, int>> attached;
int MPI_Buffer_attach(void *b, int n) { attached[cur->rank->id] = {b, n}; return MPI_SUCCESS; }
int MPI_Buffer_detach(void *b, int *n) { auto &a = attached[cur->rank->id]; *(void **)b = a.first; *n = a.second; return MPI_SUCCESS; }
int MPI_Sendrecv_replace(void *b, int n, MPI_Datatype t, int d, int stag, int s, int rtag, MPI_Comm c, MPI_Status *status) {
    std::vector<u8> copy;
    { HostGuard g; copy.assign((u8 *)b, (u8 *)b + (size_t)n * tsize(t)); }
    Call k("MPI_Sendrecv_replace");
    Req *y = postSend(copy.data(), n, t, d, stag, c, false, true), *x = postRecv(b, n, t, s, rtag, c, true);
    waitReq(y, "MPI_Sendrecv_replace"); waitReq(x, "MPI_Sendrecv_replace");
    retire(y, MPI_STATUS_IGNORE); retire(x, status);
    return MPI_SUCCESS;
}
static int persistent(int mode, const void *b, int n, MPI_Datatype t, int peer, int tag, MPI_Comm c, MPI_Request *r) {
    checkArgs("persistent request", n, peer, tag, ctxId(c), mode == 2);
    Req *q = newReq(mode == 2 ? Req::RECV : Req::SEND);
    q->persist = true; q->active = false; q->done = true;
    q->src = b; q->pn = n; q->pt = t; q->peer = peer; q->tag = tag; q->pc = c; q->pmode = mode; q->rc = peer;
    *r = q;
    return MPI_SUCCESS;
}
int MPI_Send_init(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { Call k("MPI_Send_init"); return persistent(0, b, n, t, d, tag, c, r); }
int MPI_Bsend_init(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { return MPI_Send_init(b, n, t, d, tag, c, r); }
int MPI_Rsend_init(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { Call k("MPI_Rsend_init"); return persistent(0, b, n, t, d, tag, c, r); }
int MPI_Ssend_init(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { Call k("MPI_Ssend_init"); return persistent(1, b, n, t, d, tag, c, r); }
int MPI_Recv_init(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *r) { Call k("MPI_Recv_init"); return persistent(2, b, n, t, s, tag, c, r); }
static void startReq(MPI_Request r) {
    Req *q = chk(r);
    if (!q->persist || q->active) fatal("mpi.usage", "MPI_Start of a request that is not an inactive persistent one");
    q->active = true; q->done = false; q->msg = nullptr;
    if (q->pmode == 2) postRecv((void *)q->src, q->pn, q->pt, q->rc, q->tag, q->pc, false, q);
    else postSend(q->src, q->pn, q->pt, q->rc, q->tag, q->pc, q->pmode == 1, false, q);
}
int MPI_Start(MPI_Request *r) { Call k("MPI_Start"); startReq(*r); return MPI_SUCCESS; }
int MPI_Startall(int n, MPI_Request r[]) { Call k("MPI_Startall"); for (int i = 0; i < n; i++) startReq(r[i]); return MPI_SUCCESS; }
int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype *o) { HostGuard g; *o = SIM_H(MPI_Datatype, 0x100000 + (derived.size() << 8)); derived.push_back((size_t)n * tsize(t)); return MPI_SUCCESS; }
int MPI_Type_commit(MPI_Datatype *) { return MPI_SUCCESS; }
int MPI_Type_free(MPI_Datatype *t) { *t = MPI_DATATYPE_NULL; return MPI_SUCCESS; }
int MPI_Comm_get_attr(MPI_Comm, int key, void *v, int *flag) { static int ub = 0x7fffffff; *flag = key == MPI_TAG_UB; if (*flag) *(int **)v = &ub; return MPI_SUCCESS; }
int MPI_Request_free(MPI_Request *r) {
    Call k("MPI_Request_free");
    Req *q = chk(*r);
    // the operation goes on; without completion nobody may reuse the buffer
    q->freed = true;
    if (q->persist && !q->active) { q->persist = false; *r = MPI_REQUEST_NULL; retire(q, MPI_STATUS_IGNORE); return MPI_SUCCESS; }
    q->persist = false;
    if (q->done) { *r = MPI_REQUEST_NULL; retire(q, MPI_STATUS_IGNORE); return MPI_SUCCESS; }
    *r = MPI_REQUEST_NULL;
    return MPI_SUCCESS;
}
int MPI_Cancel(MPI_Request *r) {
    Call k("MPI_Cancel");
    Req *q = chk(*r);
    if (q->kind == Req::RECV && !q->done && !q->msg) {
        auto &p = posted[cur->rank->id];
        p.erase(std::find(p.begin(), p.end(), q));
        if (q->cap) memcpy(q->buf, q->saved.data(), q->cap);
        q->done = true; q->st.cancelled = 1;
    }
    return MPI_SUCCESS;
}
static Msg *probeFind(int s, int tag, int ctx) {
    for (Msg *m : unexpected[cur->rank->id]) if (fits(m, world(ctx, s), tag, ctx)) return m;
    return nullptr;
}
static const size_t UNDEFBYTES = 0xdeadbeefdead0001ull;   // an undefined status
int MPI_Iprobe(int s, int tag, MPI_Comm c, int *flag, MPI_Status *stt) {
    Call k("MPI_Iprobe");
    int ctx = ctxId(c);
    checkArgs("probe", 0, s, tag, ctx, true);
    Msg *m = probeFind(s, tag, ctx);
    if (m && cfg.probeMiss && m->missed < 20 && chance(S_PROBE, cfg.probeMiss * 10)) { m->missed++; st.probeMiss++; m = nullptr; }
    *flag = m != nullptr;
    polled(m);
    if (m && stt) { stt->MPI_SOURCE = isSelf(ctx) ? 0 : crankOf(ctx, m->src); stt->MPI_TAG = m->tag; stt->bytes = m->n; }
    else if (stt) { stt->MPI_SOURCE = stt->MPI_TAG = -77777; stt->bytes = UNDEFBYTES; }   // undefined now
    return MPI_SUCCESS;
}
int MPI_Probe(int s, int tag, MPI_Comm c, MPI_Status *stt) {
    Call k("MPI_Probe");
    int ctx = ctxId(c);
    checkArgs("probe", 0, s, tag, ctx, true);
    Msg *m;
    while (!(m = probeFind(s, tag, ctx))) waitOn(cur->rank, "MPI_Probe");
    if (stt) { stt->MPI_SOURCE = isSelf(ctx) ? 0 : crankOf(ctx, m->src); stt->MPI_TAG = m->tag; stt->bytes = m->n; }
    return MPI_SUCCESS;
}
// a message taken out of the queue, to be received later
static Msg *claim(Msg *m) {
    auto &uq = unexpected[cur->rank->id];
    uq.erase(std::find(uq.begin(), uq.end(), m));
    claimed.insert(m);
    return m;
}
static void msgStatus(const Msg *m, int ctx, MPI_Status *stt) {
    if (stt) { stt->MPI_SOURCE = isSelf(ctx) ? 0 : crankOf(ctx, m->src); stt->MPI_TAG = m->tag; stt->bytes = m->n; }
}
static Req *recvClaimed(void *buf, int n, MPI_Datatype t, MPI_Message *h, bool blocking) {
    Msg *m = (Msg *)*h;
    Req *q = newReq(Req::RECV);
    *h = MPI_MESSAGE_NULL;
    if ((MPI_Message)m == MPI_MESSAGE_NO_PROC) { q->done = true; q->st.MPI_SOURCE = MPI_PROC_NULL; q->st.MPI_TAG = MPI_ANY_TAG; return q; }
    if (!claimed.count(m) || m->dst != cur->rank->id) fatal("mpi.usage", "receive of an invalid message handle");
    claimed.erase(m);
    size_t cap = (size_t)n * tsize(t);
    q->buf = (u8 *)buf; q->cap = cap; q->peer = m->src; q->tag = m->tag; q->ctx = m->ctx;
    touch(buf, cap, true);
    q->saved.assign((u8 *)buf, (u8 *)buf + cap);
    if (cap) memset(buf, 0xf7, cap);
    if (!blocking) { pinAdd(cur->rank, buf, cap, true); q->pinned = true; }
    match(m, q);
    return q;
}
int MPI_Improbe(int s, int tag, MPI_Comm c, int *flag, MPI_Message *h, MPI_Status *stt) {
    Call k("MPI_Improbe");
    int ctx = ctxId(c);
    checkArgs("probe", 0, s, tag, ctx, true);
    if (s == MPI_PROC_NULL) { *flag = 1; *h = MPI_MESSAGE_NO_PROC; if (stt) { stt->MPI_SOURCE = MPI_PROC_NULL; stt->MPI_TAG = MPI_ANY_TAG; stt->bytes = 0; } return MPI_SUCCESS; }
    Msg *m = probeFind(s, tag, ctx);
    if (m && cfg.probeMiss && m->missed < 20 && chance(S_PROBE, cfg.probeMiss * 10)) { m->missed++; st.probeMiss++; m = nullptr; }
    *flag = m != nullptr;
    polled(m);
    if (m) { msgStatus(m, ctx, stt); *h = (MPI_Message)claim(m); }
    else if (stt) { stt->MPI_SOURCE = stt->MPI_TAG = -77777; stt->bytes = UNDEFBYTES; }
    return MPI_SUCCESS;
}
int MPI_Mprobe(int s, int tag, MPI_Comm c, MPI_Message *h, MPI_Status *stt) {
    Call k("MPI_Mprobe");
    int ctx = ctxId(c);
    checkArgs("probe", 0, s, tag, ctx, true);
    if (s == MPI_PROC_NULL) { *h = MPI_MESSAGE_NO_PROC; if (stt) { stt->MPI_SOURCE = MPI_PROC_NULL; stt->MPI_TAG = MPI_ANY_TAG; stt->bytes = 0; } return MPI_SUCCESS; }
    Msg *m;
    while (!(m = probeFind(s, tag, ctx))) waitOn(cur->rank, "MPI_Mprobe");
    msgStatus(m, ctx, stt);
    *h = (MPI_Message)claim(m);
    return MPI_SUCCESS;
}
int MPI_Mrecv(void *b, int n, MPI_Datatype t, MPI_Message *h, MPI_Status *stt) { Call k("MPI_Mrecv"); Req *q = recvClaimed(b, n, t, h, true); waitReq(q, "MPI_Mrecv"); retire(q, stt); return MPI_SUCCESS; }
int MPI_Imrecv(void *b, int n, MPI_Datatype t, MPI_Message *h, MPI_Request *r) { Call k("MPI_Imrecv"); *r = recvClaimed(b, n, t, h, false); return MPI_SUCCESS; }
int MPI_Pack_size(int n, MPI_Datatype t, MPI_Comm, int *z) { *z = (int)(n * tsize(t)); return MPI_SUCCESS; }
int MPI_Pack(const void *in, int n, MPI_Datatype t, void *out, int cap, int *pos, MPI_Comm) {
    Call k("MPI_Pack");
    size_t z = (size_t)n * tsize(t);
    if (*pos + z > (size_t)cap) fatal("mpi.usage", "MPI_Pack beyond the end of the buffer");
    touch(in, z, false); touch((u8 *)out + *pos, z, true);
    if (z) memcpy((u8 *)out + *pos, in, z);
    *pos += (int)z;
    return MPI_SUCCESS;
}
int MPI_Unpack(const void *in, int cap, int *pos, void *out, int n, MPI_Datatype t, MPI_Comm) {
    Call k("MPI_Unpack");
    size_t z = (size_t)n * tsize(t);
    if (*pos + z > (size_t)cap) fatal("mpi.usage", "MPI_Unpack beyond the end of the buffer");
    touch((const u8 *)in + *pos, z, false); touch(out, z, true);
    if (z) memcpy(out, (const u8 *)in + *pos, z);
    *pos += (int)z;
    return MPI_SUCCESS;
}
int MPI_Alloc_mem(MPI_Aint n, MPI_Info, void *out) { *(void **)out = malloc((size_t)n); return *(void **)out ? MPI_SUCCESS : MPI_ERR_OTHER; }
int MPI_Free_mem(void *p) { free(p); return MPI_SUCCESS; }
int MPI_Get_address(const void *p, MPI_Aint *a) { *a = (MPI_Aint)p; return MPI_SUCCESS; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint *lb, MPI_Aint *e) { *lb = 0; *e = (MPI_Aint)tsize(t); return MPI_SUCCESS; }
int MPI_Info_create(MPI_Info *i) { *i = SIM_H(MPI_Info, 1); return MPI_SUCCESS; }
int MPI_Info_set(MPI_Info, const char *, const char *) { return MPI_SUCCESS; }
int MPI_Info_free(MPI_Info *i) { *i = MPI_INFO_NULL; return MPI_SUCCESS; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *o) {
    Call k("MPI_Comm_compare");
    int x = ctxId(a), y = ctxId(b);
    *o = x == y ? MPI_IDENT : csize(x) != csize(y) ? MPI_UNEQUAL : MPI_CONGRUENT;
    return MPI_SUCCESS;
}
int MPI_Get_version(int *a, int *b) { *a = 3; *b = 1; return MPI_SUCCESS; }
int MPI_Get_library_version(char *s, int *n) { strcpy(s, "simulated"); *n = 9; return MPI_SUCCESS; }
int MPI_Get_count(const MPI_Status *s, MPI_Datatype t, int *n) {
    size_t z = tsize(t);
    if (s->bytes == UNDEFBYTES) { HostGuard g; violate("mpi.status", "the status of a probe that found nothing is read"); *n = MPI_UNDEFINED; return MPI_SUCCESS; }
    *n = z ? (s->bytes % z ? MPI_UNDEFINED : (int)(s->bytes / z)) : 0;
    return MPI_SUCCESS;
}
int MPI_Get_elements(const MPI_Status *s, MPI_Datatype t, int *n) { return MPI_Get_count(s, t, n); }
int MPI_Type_size(MPI_Datatype t, int *n) { *n = (int)tsize(t); return MPI_SUCCESS; }
}

// ---------------------------------------------------------------- collectives
enum { C_BARRIER, C_ALLREDUCE, C_REDUCE, C_BCAST, C_ALLGATHER, C_GATHER, C_ALLTOALL, C_SCAN, C_EXSCAN, C_DUP,
       C_FOPEN, C_FCLOSE, C_FRW, C_FINALIZE, C_DOT, C_COMMFREE, C_FSETSIZE, C_FSYNC, C_FVIEW, C_SCATTER, C_SPLIT };
static const char *collName[] = {"barrier", "allreduce", "reduce", "bcast", "allgather", "gather", "alltoall", "scan", "exscan",
                                 "comm_dup", "file_open", "file_close", "file_rw_all", "finalize", "solver dot product", "comm_free", "file_set_size", "file_sync", "file_set_view", "scatter", "comm_split"};
template <class T> static void comb(T *a, const T *b, int n, int op) {
    for (int i = 0; i < n; i++)
        switch (op) {
        case 1: a[i] = a[i] + b[i]; break;
        case 2: a[i] = a[i] > b[i] ? a[i] : b[i]; break;
        case 3: a[i] = a[i] < b[i] ? a[i] : b[i]; break;
        case 4: a[i] = a[i] * b[i]; break;
        case 5: a[i] = (T)((a[i] != 0) && (b[i] != 0)); break;
        case 6: a[i] = (T)((a[i] != 0) || (b[i] != 0)); break;
        case 7: a[i] = (T)((u64)a[i] & (u64)b[i]); break;
        case 8: a[i] = (T)((u64)a[i] | (u64)b[i]); break;
        case 9: a[i] = (T)((u64)a[i] ^ (u64)b[i]); break;
        }
}
static void combine(u8 *a, const u8 *b, int n, int type, int op) {
    switch (type >> 8) {
    case 0x1d: comb((double *)a, (const double *)b, n, op); break;
    case 0x1c: comb((float *)a, (const float *)b, n, op); break;
    case 0x16: case 0x20: comb((int32_t *)a, (const int32_t *)b, n, op); break;
    case 0x17: case 0x21: comb((u32 *)a, (const u32 *)b, n, op); break;
    case 0x18: case 0x1a: case 0x22: case 0x25: case 0x26: comb((i64 *)a, (const i64 *)b, n, op); break;
    case 0x19: case 0x1b: case 0x23: comb((u64 *)a, (const u64 *)b, n, op); break;
    case 0x10: case 0x12: case 0x1e: comb((int8_t *)a, (const int8_t *)b, n, op); break;
    case 0x14: comb((int16_t *)a, (const int16_t *)b, n, op); break;
    case 0x15: comb((uint16_t *)a, (const uint16_t *)b, n, op); break;
    default: comb(a, b, n, op);
    }
}
static void collFinish(Coll &c) {
    if (c.kind == C_ALLREDUCE || c.kind == C_REDUCE || c.kind == C_DOT) {
        std::vector<int> ord;
        int np = csize(c.ctx);
        for (int i = 0; i < np; i++) ord.push_back(i);
        if (cfg.reduceMode && np > 1) {
            st.rndReduce++;
            for (int i = np - 1; i > 0; i--) { u64 x = draw(S_REDUCE); if (x) std::swap(ord[i], ord[(x >> 8) % (i + 1)]); }
        }
        c.outp = c.in[ord[0]];
        for (int i = 1; i < np; i++) combine(c.outp.data(), c.in[ord[i]].data(), c.count, c.type, c.op);
    }
    c.complete = true;
}
static Coll &collEnter(int kind, int ctx, int count, int type, int op, int root, const std::string &extra, const void *in, size_t n, u64 *key) {
    Rank *r = cur->rank;
    int me = crank(ctx), np = csize(ctx);
    u64 s = collSeq[{ctx, isSelf(ctx) ? 100 + r->id : r->id}]++;
    u64 k = isSelf(ctx) ? (s << 8 | (u64)r->id) : s;
    *key = k;
    st.colls++;
    if (r->holds.size() < 200000) r->holds.push_back({r->liveBytes, (i64)liveReqs[r->id].size(), r->solverObjs, (i64)rankOut[0].size()});
    novelty(1ull << 63 ^ (u64)kind << 32 ^ (u64)r->id, in ? hashBytes((const u8 *)in, n) : 0);
    logEvent(0x41, kind, k);
    auto it = colls.find({ctx, k});
    if (it == colls.end()) {
        Coll &c = colls[{ctx, k}];
        c.kind = kind; c.count = count; c.type = type; c.op = op; c.root = root; c.ctx = ctx; c.extra = extra;
        c.mask = 0; c.n = 0; c.left = np; c.result = 0; c.complete = false;
        it = colls.find({ctx, k});
    }
    Coll &c = it->second;
    bool sizeMatters = kind != C_FOPEN;
    if (c.kind != kind || (sizeMatters && c.count != count) || c.type != type || c.op != op || c.root != root || c.extra != extra) {
        char b[300];
        snprintf(b, sizeof b, "collective call %llu: rank %d calls %s (count %d type %x op %d root %d %s) where another process calls %s (count %d type %x op %d root %d %s)",
                 (unsigned long long)k, r->id, collName[kind], count, type, op, root, extra.c_str(), collName[c.kind], c.count, c.type, c.op, c.root, c.extra.c_str());
        fatal("mpi.collective", b);
    }
    c.in[me].assign((const u8 *)in, (const u8 *)in + n);
    logEvent(0x42, hashBytes((const u8 *)in, n));
    c.mask |= 1u << me;
    c.n++;
    if (c.n == np) {
        collFinish(c);
        for (int i = 0; i < cfg.ranks; i++) rankChanged(&ranks[i]);
    }
    return c;
}
static void collWait(Coll &c, const char *nm) {
    while (!c.complete) waitOn(cur->rank, nm);
    u64 d = draw(S_COLL);
    if (d && cfg.costJit) fibSleep(1 + (d >> 8) % (4 * cfg.costJit));
}
static void collLeave(Coll &c, u64 key) {
    if (--c.left == 0) colls.erase({c.ctx, key});
}
extern "C" {
int MPI_Barrier(MPI_Comm cm) { Call k("MPI_Barrier"); int x = ctxId(cm); u64 key; Coll &c = collEnter(C_BARRIER, x, 0, 0, 0, 0, "", "", 0, &key); collWait(c, "MPI_Barrier"); collLeave(c, key); return MPI_SUCCESS; }
static Req *collReq(Coll &c, u64 key) {
    Req *q = newReq(Req::COLL);
    q->coll = &c; q->collKey = key; q->ctx = c.ctx;
    q->finish = [](Req *q) { collLeave(*q->coll, q->collKey); q->coll = nullptr; return (int)MPI_SUCCESS; };
    return q;
}
int MPI_Ibarrier(MPI_Comm cm, MPI_Request *r) {
    Call k("MPI_Ibarrier");
    u64 key; Coll &c = collEnter(C_BARRIER, ctxId(cm), 0, 0, 0, 0, "", "", 0, &key);
    *r = collReq(c, key);
    return MPI_SUCCESS;
}
// non-blocking ones with data: the buffers belong to the library until the end
static Req *collBuf(Coll &c, u64 key, const void *src, size_t n, void *out, size_t outn) {
    Req *q = collReq(c, key);
    q->src = src; q->cap = n; q->out = out; q->outn = outn;
    if (src && n && src != out) pinAdd(cur->rank, src, n, false);
    if (out && outn) pinAdd(cur->rank, out, outn, true);
    return q;
}
static void collUnpin(Req *q) {
    if (q->src && q->cap && q->src != q->out) pinDel(q->rank, q->src, q->cap, false);
    if (q->out && q->outn) { pinDel(q->rank, q->out, q->outn, true); touch(q->out, q->outn, true); }
}
static int iall(int kind, const void *s, void *d, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm cm, MPI_Request *r) {
    int x = ctxId(cm);
    if (n < 0 || root < 0 || root >= csize(x)) fatal("mpi.usage", "non-blocking reduction: bad argument");
    size_t z = (size_t)n * tsize(t);
    const void *src = s == MPI_IN_PLACE ? d : s;
    touch(src, z, false);
    bool get = kind == C_ALLREDUCE || crank(x) == root;
    u64 key; Coll &c = collEnter(kind, x, n, (int)(intptr_t)t, (int)(intptr_t)op, root, "nonblocking", src, z, &key);
    Req *q = collBuf(c, key, src, z, get ? d : nullptr, get ? z : 0);
    q->finish = [](Req *q) { collUnpin(q); if (q->outn) memcpy(q->out, q->coll->outp.data(), q->outn); collLeave(*q->coll, q->collKey); q->coll = nullptr; return (int)MPI_SUCCESS; };
    *r = q;
    return MPI_SUCCESS;
}
int MPI_Iallreduce(const void *s, void *d, int n, MPI_Datatype t, MPI_Op op, MPI_Comm cm, MPI_Request *r) { Call k("MPI_Iallreduce"); return iall(C_ALLREDUCE, s, d, n, t, op, 0, cm, r); }
int MPI_Ireduce(const void *s, void *d, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm cm, MPI_Request *r) { Call k("MPI_Ireduce"); return iall(C_REDUCE, s, d, n, t, op, root, cm, r); }
int MPI_Ibcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm cm, MPI_Request *r) {
    Call k("MPI_Ibcast");
    int x = ctxId(cm);
    if (n < 0 || root < 0 || root >= csize(x)) fatal("mpi.usage", "bcast: bad argument");
    size_t z = (size_t)n * tsize(t);
    bool me = crank(x) == root;
    touch(b, z, !me);
    u64 key; Coll &c = collEnter(C_BCAST, x, n, (int)(intptr_t)t, 0, root, "nonblocking", b, me ? z : 0, &key);
    Req *q = collBuf(c, key, me ? b : nullptr, z, me ? nullptr : b, me ? 0 : z);
    q->tag = root;
    q->finish = [](Req *q) { collUnpin(q); if (q->outn) memcpy(q->out, q->coll->in[q->tag].data(), q->outn); collLeave(*q->coll, q->collKey); q->coll = nullptr; return (int)MPI_SUCCESS; };
    *r = q;
    return MPI_SUCCESS;
}
int MPI_Iallgather(const void *s, int n, MPI_Datatype t, void *d, int n2, MPI_Datatype t2, MPI_Comm cm, MPI_Request *r) {
    Call k("MPI_Iallgather");
    int x = ctxId(cm);
    size_t z2 = (size_t)n2 * tsize(t2), z = s == MPI_IN_PLACE ? z2 : (size_t)n * tsize(t);
    const void *src = s == MPI_IN_PLACE ? (u8 *)d + z2 * crank(x) : (const u8 *)s;
    touch(src, z, false);
    u64 key; Coll &c = collEnter(C_ALLGATHER, x, (int)z, 0, 0, 0, "nonblocking", src, z, &key);
    Req *q = collBuf(c, key, s == MPI_IN_PLACE ? nullptr : src, z, d, z2 * csize(x));
    q->off = z2;
    q->finish = [](Req *q) {
        collUnpin(q);
        for (int i = 0; i < csize(q->ctx); i++) { auto &v = q->coll->in[i]; if (v.size()) memcpy((u8 *)q->out + q->off * i, v.data(), v.size()); }
        collLeave(*q->coll, q->collKey); q->coll = nullptr; return (int)MPI_SUCCESS; };
    *r = q;
    return MPI_SUCCESS;
}
int MPI_Allgatherv(const void *s, int n, MPI_Datatype t, void *d, const int cnt[], const int dis[], MPI_Datatype t2, MPI_Comm cm) {
    Call k("MPI_Allgatherv");
    int x = ctxId(cm), me = crank(x);
    size_t e = tsize(t2), z = s == MPI_IN_PLACE ? (size_t)cnt[me] * e : (size_t)n * tsize(t);
    const void *src = s == MPI_IN_PLACE ? (u8 *)d + e * dis[me] : (const u8 *)s;
    touch(src, z, false);
    u64 key; Coll &c = collEnter(C_ALLGATHER, x, 0, 0, 0, 0, "v", src, z, &key);
    collWait(c, "MPI_Allgatherv");
    for (int i = 0; i < csize(x); i++) {
        if (c.in[i].size() != (size_t)cnt[i] * e) fatal("mpi.usage", "MPI_Allgatherv: counts do not fit");
        touch((u8 *)d + e * dis[i], c.in[i].size(), true);
        if (c.in[i].size()) memcpy((u8 *)d + e * dis[i], c.in[i].data(), c.in[i].size());
    }
    collLeave(c, key);
    return MPI_SUCCESS;
}
int MPI_Gatherv(const void *s, int n, MPI_Datatype t, void *d, const int cnt[], const int dis[], MPI_Datatype t2, int root, MPI_Comm cm) {
    Call k("MPI_Gatherv");
    int x = ctxId(cm), me = crank(x);
    size_t e = tsize(t2), z = s == MPI_IN_PLACE ? (size_t)cnt[me] * e : (size_t)n * tsize(t);
    const void *src = s == MPI_IN_PLACE ? (u8 *)d + e * dis[me] : (const u8 *)s;
    touch(src, z, false);
    u64 key; Coll &c = collEnter(C_GATHER, x, 0, 0, 0, root, "v", src, z, &key);
    if (me == root) {
        collWait(c, "MPI_Gatherv");
        for (int i = 0; i < csize(x); i++) {
            if (c.in[i].size() != (size_t)cnt[i] * e) fatal("mpi.usage", "MPI_Gatherv: counts do not fit");
            touch((u8 *)d + e * dis[i], c.in[i].size(), true);
            if (c.in[i].size()) memcpy((u8 *)d + e * dis[i], c.in[i].data(), c.in[i].size());
        }
    }
    collLeave(c, key);
    return MPI_SUCCESS;
}
// the root's data, taken apart by everyone
static int scatter(const void *s, const int *cnt, const int *dis, int n1, MPI_Datatype t1, void *d, int n, MPI_Datatype t, int root, MPI_Comm cm, const char *nm) {
    int x = ctxId(cm), me = crank(x), np = csize(x);
    if (root < 0 || root >= np) fatal("mpi.usage", "scatter: bad root");
    std::vector<u8> pack;   // lengths, then the parts
    if (me == root) {
        for (int i = 0; i < np; i++) { u64 z = (u64)(cnt ? cnt[i] : n1) * tsize(t1); pack.insert(pack.end(), (u8 *)&z, (u8 *)&z + 8); }
        for (int i = 0; i < np; i++) {
            size_t z = (size_t)(cnt ? cnt[i] : n1) * tsize(t1);
            const u8 *p = (const u8 *)s + (size_t)(cnt ? dis[i] : n1 * i) * tsize(t1);
            touch(p, z, false);
            pack.insert(pack.end(), p, p + z);
        }
    }
    u64 key; Coll &c = collEnter(C_SCATTER, x, 0, 0, 0, root, cnt || dis ? "v" : nm, pack.data(), pack.size(), &key);
    while (!(c.mask >> root & 1)) waitOn(cur->rank, nm);
    const u8 *p = c.in[root].data();
    size_t off = 8 * np; u64 z = 0;
    for (int i = 0; i <= me; i++) { off += z; memcpy(&z, p + 8 * i, 8); }
    if (d != MPI_IN_PLACE) {
        if (z > (u64)n * tsize(t)) fatal("mpi.truncate", "scatter: the receive buffer is too small");
        touch(d, z, true);
        if (z) memcpy(d, p + off, z);
    }
    for (int i = 0; i < cfg.ranks; i++) rankChanged(&ranks[i]);
    collLeave(c, key);
    return MPI_SUCCESS;
}
int MPI_Scatter(const void *s, int n1, MPI_Datatype t1, void *d, int n, MPI_Datatype t, int root, MPI_Comm cm) { Call k("MPI_Scatter"); return scatter(s, nullptr, nullptr, n1, t1, d, n, t, root, cm, "MPI_Scatter"); }
int MPI_Scatterv(const void *s, const int cnt[], const int dis[], MPI_Datatype t1, void *d, int n, MPI_Datatype t, int root, MPI_Comm cm) { Call k("MPI_Scatterv"); return scatter(s, cnt, dis, 0, t1, d, n, t, root, cm, "v"); }
int MPI_Alltoallv(const void *s, const int sc[], const int sd[], MPI_Datatype t, void *d, const int rc[], const int rd[], MPI_Datatype t2, MPI_Comm cm) {
    Call k("MPI_Alltoallv");
    int x = ctxId(cm), me = crank(x), np = csize(x);
    std::vector<u8> pack;
    for (int i = 0; i < np; i++) { u64 z = (u64)sc[i] * tsize(t); pack.insert(pack.end(), (u8 *)&z, (u8 *)&z + 8); }
    for (int i = 0; i < np; i++) { size_t z = (size_t)sc[i] * tsize(t); const u8 *p = (const u8 *)s + (size_t)sd[i] * tsize(t); touch(p, z, false); pack.insert(pack.end(), p, p + z); }
    u64 key; Coll &c = collEnter(C_ALLTOALL, x, 0, 0, 0, 0, "v", pack.data(), pack.size(), &key);
    collWait(c, "MPI_Alltoallv");
    for (int i = 0; i < np; i++) {
        const u8 *p = c.in[i].data();
        size_t off = 8 * np; u64 z = 0;
        for (int j = 0; j <= me; j++) { off += z; memcpy(&z, p + 8 * j, 8); }
        if (z != (u64)rc[i] * tsize(t2)) fatal("mpi.usage", "MPI_Alltoallv: counts do not fit");
        u8 *q = (u8 *)d + (size_t)rd[i] * tsize(t2);
        touch(q, z, true);
        if (z) memcpy(q, p + off, z);
    }
    collLeave(c, key);
    return MPI_SUCCESS;
}
int MPI_Reduce_scatter_block(const void *s, void *d, int n, MPI_Datatype t, MPI_Op op, MPI_Comm cm) {
    Call k("MPI_Reduce_scatter_block");
    int x = ctxId(cm), np = csize(x);
    size_t z = (size_t)n * tsize(t);
    const void *src = s == MPI_IN_PLACE ? d : s;
    touch(src, z * np, false);
    u64 key; Coll &c = collEnter(C_ALLREDUCE, x, n * np, (int)(intptr_t)t, (int)(intptr_t)op, 0, "scatter", src, z * np, &key);
    collWait(c, "MPI_Reduce_scatter_block");
    touch(d, z, true);
    if (z) memcpy(d, c.outp.data() + z * crank(x), z);
    collLeave(c, key);
    return MPI_SUCCESS;
}
int MPI_Reduce_scatter(const void *s, void *d, const int cnt[], MPI_Datatype t, MPI_Op op, MPI_Comm cm) {
    Call k("MPI_Reduce_scatter");
    int x = ctxId(cm), np = csize(x), n = 0, before = 0;
    for (int i = 0; i < np; i++) { if (i == crank(x)) before = n; n += cnt[i]; }
    size_t e = tsize(t), z = (size_t)cnt[crank(x)] * e;
    const void *src = s == MPI_IN_PLACE ? d : s;
    touch(src, e * n, false);
    u64 key; Coll &c = collEnter(C_ALLREDUCE, x, n, (int)(intptr_t)t, (int)(intptr_t)op, 0, "scatterv", src, e * n, &key);
    collWait(c, "MPI_Reduce_scatter");
    touch(d, z, true);
    if (z) memcpy(d, c.outp.data() + e * before, z);
    collLeave(c, key);
    return MPI_SUCCESS;
}
int MPI_Reduce_local(const void *a, void *b, int n, MPI_Datatype t, MPI_Op op) {
    Call k("MPI_Reduce_local");
    touch(a, (size_t)n * tsize(t), false); touch(b, (size_t)n * tsize(t), true);
    combine((u8 *)b, (const u8 *)a, n, (int)(intptr_t)t, (int)(intptr_t)op);
    return MPI_SUCCESS;
}
int MPI_Igather(const void *s, int n, MPI_Datatype t, void *d, int n2, MPI_Datatype t2, int root, MPI_Comm cm, MPI_Request *r) {
    Call k("MPI_Igather");
    int x = ctxId(cm);
    bool me = crank(x) == root;
    size_t z2 = me ? (size_t)n2 * tsize(t2) : 0, z = s == MPI_IN_PLACE ? z2 : (size_t)n * tsize(t);
    const void *src = s == MPI_IN_PLACE ? (u8 *)d + z2 * crank(x) : (const u8 *)s;
    touch(src, z, false);
    u64 key; Coll &c = collEnter(C_GATHER, x, (int)z, 0, 0, root, "nonblocking", src, z, &key);
    Req *q = collBuf(c, key, s == MPI_IN_PLACE ? nullptr : src, z, me ? d : nullptr, z2 * csize(x));
    q->off = z2;
    q->finish = [](Req *q) {
        collUnpin(q);
        if (q->out) for (int i = 0; i < csize(q->ctx); i++) { auto &v = q->coll->in[i]; if (v.size()) memcpy((u8 *)q->out + q->off * i, v.data(), v.size()); }
        collLeave(*q->coll, q->collKey); q->coll = nullptr; return (int)MPI_SUCCESS; };
    *r = q;
    return MPI_SUCCESS;
}
int MPI_Ialltoall(const void *s, int n, MPI_Datatype t, void *d, int n2, MPI_Datatype t2, MPI_Comm cm, MPI_Request *r) {
    Call k("MPI_Ialltoall");
    int x = ctxId(cm), np = csize(x);
    size_t z2 = (size_t)n2 * tsize(t2), z = s == MPI_IN_PLACE ? z2 : (size_t)n * tsize(t);
    const void *src = s == MPI_IN_PLACE ? d : s;
    touch(src, z * np, false);
    u64 key; Coll &c = collEnter(C_ALLTOALL, x, (int)z, 0, 0, 0, "nonblocking", src, z * np, &key);
    Req *q = collBuf(c, key, s == MPI_IN_PLACE ? nullptr : src, z * np, d, z2 * np);
    q->off = z2;
    q->finish = [](Req *q) {
        collUnpin(q);
        int me = crank(q->ctx);
        for (int i = 0; i < csize(q->ctx); i++) if (q->off) memcpy((u8 *)q->out + q->off * i, q->coll->in[i].data() + q->off * me, q->off);
        collLeave(*q->coll, q->collKey); q->coll = nullptr; return (int)MPI_SUCCESS; };
    *r = q;
    return MPI_SUCCESS;
}
int MPI_Allreduce(const void *s, void *d, int n, MPI_Datatype t, MPI_Op op, MPI_Comm cm) {
    Call k("MPI_Allreduce");
    int x = ctxId(cm);
    if (n < 0) fatal("mpi.usage", "allreduce: negative count");
    size_t z = (size_t)n * tsize(t);
    const void *src = s == MPI_IN_PLACE ? d : s;
    touch(src, z, false);
    u64 key; Coll &c = collEnter(C_ALLREDUCE, x, n, (int)(intptr_t)t, (int)(intptr_t)op, 0, "", src, z, &key);
    collWait(c, "MPI_Allreduce");
    touch(d, z, true);
    if (z) memcpy(d, c.outp.data(), z);
    collLeave(c, key);
    return MPI_SUCCESS;
}
int MPI_Reduce(const void *s, void *d, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm cm) {
    Call k("MPI_Reduce");
    int x = ctxId(cm);
    if (n < 0 || root < 0 || root >= csize(x)) fatal("mpi.usage", "reduce: bad argument");
    size_t z = (size_t)n * tsize(t);
    const void *src = s == MPI_IN_PLACE ? d : s;
    touch(src, z, false);
    u64 key; Coll &c = collEnter(C_REDUCE, x, n, (int)(intptr_t)t, (int)(intptr_t)op, root, "", src, z, &key);
    if (crank(x) == root) { collWait(c, "MPI_Reduce"); touch(d, z, true); if (z) memcpy(d, c.outp.data(), z); }
    else if (drawN(S_COLL, 2)) collWait(c, "MPI_Reduce");
    collLeave(c, key);
    return MPI_SUCCESS;
}
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm cm) {
    Call k("MPI_Bcast");
    int x = ctxId(cm);
    if (n < 0 || root < 0 || root >= csize(x)) fatal("mpi.usage", "bcast: bad argument");
    size_t z = (size_t)n * tsize(t);
    bool me = crank(x) == root;
    touch(b, z, !me);
    u64 key; Coll &c = collEnter(C_BCAST, x, n, (int)(intptr_t)t, 0, root, "", b, me ? z : 0, &key);
    if (me) { if (drawN(S_COLL, 2)) collWait(c, "MPI_Bcast"); }
    else { while (!(c.mask >> root & 1)) { if (c.complete) break; waitOn(cur->rank, "MPI_Bcast"); } if (z) memcpy(b, c.in[root].data(), z); }
    for (int i = 0; i < cfg.ranks; i++) rankChanged(&ranks[i]);
    collLeave(c, key);
    return MPI_SUCCESS;
}
int MPI_Allgather(const void *s, int n, MPI_Datatype t, void *d, int n2, MPI_Datatype t2, MPI_Comm cm) {
    Call k("MPI_Allgather");
    int x = ctxId(cm);
    size_t z2 = (size_t)n2 * tsize(t2), z = s == MPI_IN_PLACE ? z2 : (size_t)n * tsize(t);
    const void *src = s == MPI_IN_PLACE ? (u8 *)d + z2 * crank(x) : (const u8 *)s;
    touch(src, z, false);
    u64 key; Coll &c = collEnter(C_ALLGATHER, x, (int)z, 0, 0, 0, "", src, z, &key);
    collWait(c, "MPI_Allgather");
    touch(d, z2 * csize(x), true);
    for (int i = 0; i < csize(x); i++) if (z) memcpy((u8 *)d + z2 * i, c.in[i].data(), z);
    collLeave(c, key);
    return MPI_SUCCESS;
}
int MPI_Gather(const void *s, int n, MPI_Datatype t, void *d, int n2, MPI_Datatype t2, int root, MPI_Comm cm) {
    Call k("MPI_Gather");
    int x = ctxId(cm);
    bool me = crank(x) == root;
    size_t z2 = (size_t)n2 * tsize(t2), z = s == MPI_IN_PLACE ? z2 : (size_t)n * tsize(t);
    const void *src = s == MPI_IN_PLACE ? (u8 *)d + z2 * crank(x) : (const u8 *)s;
    touch(src, z, false);
    u64 key; Coll &c = collEnter(C_GATHER, x, (int)z, 0, 0, root, "", src, z, &key);
    if (me) { collWait(c, "MPI_Gather"); touch(d, z2 * csize(x), true); for (int i = 0; i < csize(x); i++) if (z) memcpy((u8 *)d + z2 * i, c.in[i].data(), z); }
    collLeave(c, key);
    return MPI_SUCCESS;
}
int MPI_Alltoall(const void *s, int n, MPI_Datatype t, void *d, int n2, MPI_Datatype t2, MPI_Comm cm) {
    Call k("MPI_Alltoall");
    int x = ctxId(cm), np = csize(x);
    size_t z = (size_t)n * tsize(t), z2 = (size_t)n2 * tsize(t2);
    if (s == MPI_IN_PLACE) { s = d; z = z2; }
    touch(s, z * np, false);
    u64 key; Coll &c = collEnter(C_ALLTOALL, x, (int)z, 0, 0, 0, "", s, z * np, &key);
    collWait(c, "MPI_Alltoall");
    touch(d, z2 * np, true);
    for (int i = 0; i < np; i++) if (z) memcpy((u8 *)d + z2 * i, c.in[i].data() + z * crank(x), z);
    collLeave(c, key);
    return MPI_SUCCESS;
}
static int scan(int kind, const void *s, void *d, int n, MPI_Datatype t, MPI_Op op, MPI_Comm cm, const char *nm) {
    int x = ctxId(cm);
    size_t z = (size_t)n * tsize(t);
    const void *src = s == MPI_IN_PLACE ? d : s;
    touch(src, z, false);
    u64 key; Coll &c = collEnter(kind, x, n, (int)(intptr_t)t, (int)(intptr_t)op, 0, "", src, z, &key);
    collWait(c, nm);
    int last = kind == C_SCAN ? crank(x) : crank(x) - 1;
    if (last >= 0) {
        std::vector<u8> a = c.in[0];
        for (int i = 1; i <= last; i++) combine(a.data(), c.in[i].data(), n, (int)(intptr_t)t, (int)(intptr_t)op);
        touch(d, z, true);
        if (z) memcpy(d, a.data(), z);
    }
    collLeave(c, key);
    return MPI_SUCCESS;
}
int MPI_Scan(const void *s, void *d, int n, MPI_Datatype t, MPI_Op op, MPI_Comm cm) { Call k("MPI_Scan"); return scan(C_SCAN, s, d, n, t, op, cm, "MPI_Scan"); }
int MPI_Exscan(const void *s, void *d, int n, MPI_Datatype t, MPI_Op op, MPI_Comm cm) { Call k("MPI_Exscan"); return scan(C_EXSCAN, s, d, n, t, op, cm, "MPI_Exscan"); }
}
void mpiAllreduceHost(double *v, int n) {
    Call k("solver dot product");
    u64 key; Coll &c = collEnter(C_DOT, 0x101, n, 0x1d08, 1, 0, "", v, (size_t)n * 8, &key);
    collWait(c, "solver dot product");
    memcpy(v, c.outp.data(), (size_t)n * 8);
    collLeave(c, key);
}

// ---------------------------------------------------------------- environment
void fileFinalizeCheck(Rank *r);
// Does what the process holds grow all through the iterations? The collective calls of the job, without the first and last of them,
// are cut into eight parts of equal length: growth means that both the least and the most that is held are more in each part than in the one before.
// Working out the sweep schedules rightly grows; it ends with the last line about them.
static void growthCheck(Rank *r) {
    size_t at = rankOut[0].rfind("Step efficiency"), first = 0;
    if (cfg.builds && at == std::string::npos) return;
    if (at != std::string::npos) while (first < r->holds.size() && r->holds[first][3] <= (i64)at) first++;
    size_t n = r->holds.size() - first, lo = first + n / 4, hi = first + n - n / 10 - std::min<size_t>(n / 10, 8);
    if (n < 50 || hi <= lo + 24) return;
    static const char *NAME[] = {"bytes of memory", "message requests", "solver objects"};
    for (size_t k = 0; k < 3; k++) {
        i64 mn0 = 0, mx0 = 0, mn1 = 0, mx1 = 0;
        bool grows = true;
        for (size_t p = 0; p < 8 && grows; p++) {
            size_t a = lo + (hi - lo) * p / 8, b = lo + (hi - lo) * (p + 1) / 8;
            i64 mn = r->holds[a][k], mx = mn;
            for (size_t i = a; i < b; i++) { mn = std::min(mn, r->holds[i][k]); mx = std::max(mx, r->holds[i][k]); }
            if (p && (mn <= mn1 || mx <= mx1)) grows = false;
            if (!p) mn0 = mn, mx0 = mx;
            mn1 = mn; mx1 = mx;
        }
        i64 least = k ? 6 : 600;
        if (grows && mn1 - mn0 >= least && mx1 - mx0 >= least)
            violate("growth.hold", "rank %d holds more and more %s: from %lld to %lld over %zu collective calls", r->id, NAME[k], (long long)mx0, (long long)mx1, hi - lo);
    }
}
extern "C" {
int MPI_Init_thread(int *, char ***, int required, int *provided) {
    Call k("MPI_Init_thread", false);
    Rank *r = cur->rank;
    if (r->inited) fatal("mpi.usage", "MPI initialised twice");
    r->inited = true;
    r->threadLevel = required;
    if (provided) *provided = required;
    return MPI_SUCCESS;
}
int MPI_Init(int *a, char ***b) { int p; return MPI_Init_thread(a, b, MPI_THREAD_SINGLE, &p); }
int MPI_Initialized(int *f) { *f = cur->rank->inited; return MPI_SUCCESS; }
int MPI_Finalized(int *f) { *f = cur->rank->finalized; return MPI_SUCCESS; }
int MPI_Query_thread(int *p) { *p = cur->rank->threadLevel; return MPI_SUCCESS; }
int MPI_Is_thread_main(int *f) { *f = !multi(cur) || cur->tid == 0; return MPI_SUCCESS; }
int MPI_Finalize() {
    Call k("MPI_Finalize");
    Rank *r = cur->rank;
    int n[4] = {0, 0, 0, 0};
    for (Req *q : liveReqs[r->id]) if (q->active && (!q->freed || q->kind == Req::RECV)) n[q->kind]++;
    if (n[0] || n[1] || n[2] || n[3]) violate("mpi.leftover", "rank %d finalizes with %d sends, %d receives and %d other requests unfinished", r->id, n[0], n[1], n[2] + n[3]);
    fileFinalizeCheck(r);
    growthCheck(r);
    u64 key; Coll &c = collEnter(C_FINALIZE, 0x101, 0, 0, 0, 0, "", "", 0, &key);
    collWait(c, "MPI_Finalize");
    collLeave(c, key);
    r->finalized = true;
    return MPI_SUCCESS;
}
int MPI_Abort(MPI_Comm, int code) { HostGuard g; jobEnd(J_FAILED, cur->rank->id, code ? code : 1, "MPI_Abort"); }
int MPI_Comm_rank(MPI_Comm c, int *r) {
    HostGuard g;
    if (!cur->rank->inited || cur->rank->finalized) fatal("mpi.usage", "MPI_Comm_rank outside MPI");
    *r = crank(ctxId(c));
    return MPI_SUCCESS;
}
int MPI_Comm_size(MPI_Comm c, int *n) {
    HostGuard g;
    if (!cur->rank->inited || cur->rank->finalized) fatal("mpi.usage", "MPI_Comm_size outside MPI");
    *n = csize(ctxId(c));
    return MPI_SUCCESS;
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *o) {
    Call k("MPI_Comm_dup");
    int x = ctxId(c); u64 key;
    if (isSelf(x)) { *o = c; return MPI_SUCCESS; }
    Coll &cc = collEnter(C_DUP, x, 0, 0, 0, 0, "", "", 0, &key);
    if (cc.complete && !cc.result) { cc.result = nextCtx++; if (groups.count(x)) { auto v = groups[x]; groups[cc.result] = v; } }
    collWait(cc, "MPI_Comm_dup");
    *o = SIM_H(MPI_Comm, cc.result);
    collLeave(cc, key);
    return MPI_SUCCESS;
}
int MPI_Comm_split(MPI_Comm c, int color, int sortKey, MPI_Comm *o) {
    Call k("MPI_Comm_split");
    int x = ctxId(c); u64 key;
    int mine[2] = {color, sortKey};
    Coll &cc = collEnter(C_SPLIT, x, 0, 0, 0, 0, "", mine, sizeof mine, &key);
    int np = csize(x);
    if (cc.complete && !cc.result) {   // the last one makes all of them
        cc.result = nextCtx;
        std::map<int, std::vector<std::pair<int, int>>> by;
        for (int i = 0; i < np; i++) { int v[2]; memcpy(v, cc.in[i].data(), sizeof v); if (v[0] != MPI_UNDEFINED) by[v[0]].push_back({v[1], i}); }
        for (auto &b : by) {
            std::stable_sort(b.second.begin(), b.second.end(), [](auto &p, auto &q) { return p.first < q.first; });
            std::vector<int> g;
            for (auto &m : b.second) g.push_back(world(x, m.second));
            groups[nextCtx++] = g;
            cc.outp.insert(cc.outp.end(), (u8 *)&b.first, (u8 *)&b.first + 4);
        }
    }
    collWait(cc, "MPI_Comm_split");
    *o = MPI_COMM_NULL;
    for (size_t i = 0; i * 4 < cc.outp.size(); i++) { int v; memcpy(&v, cc.outp.data() + 4 * i, 4); if (v == color) *o = SIM_H(MPI_Comm, cc.result + (int)i); }
    collLeave(cc, key);
    return MPI_SUCCESS;
}
int MPI_Comm_free(MPI_Comm *c) { Call k("MPI_Comm_free"); *c = MPI_COMM_NULL; return MPI_SUCCESS; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return MPI_SUCCESS; }
int MPI_File_set_errhandler(MPI_File, MPI_Errhandler) { return MPI_SUCCESS; }
int MPI_Error_string(int e, char *s, int *n) { *n = snprintf(s, MPI_MAX_ERROR_STRING, "MPI error %d", e); return MPI_SUCCESS; }
int MPI_Error_class(int e, int *c) { *c = e; return MPI_SUCCESS; }
int MPI_Get_processor_name(char *s, int *n) { *n = snprintf(s, 64, "node%d", cur->rank->id); return MPI_SUCCESS; }
double MPI_Wtime() { return clockNow(cur->rank) * 1e-9; }
double MPI_Wtick() { return 1e-9; }
}
void mpiAtRankEnd(Rank *) {}
void mpiAtJobEnd() {
    for (Msg *m : allMsgs)
        if (!m->consumed) {
            violate("mpi.leftover", "a message from rank %d to %d (tag %d, %zu bytes) is never received", m->src, m->dst, m->tag, m->n);
            break;
        }
}

// ---------------------------------------------------------------- files (MPI-IO)
std::map<std::string, DiskFile> disk;
struct sim_file_s { std::string path; int mode; u64 pos; Rank *rank; bool open; u64 disp, et; u64 lastOff, lastLen; std::vector<u8> lastOld; u64 oldSize; int ctx; };
typedef sim_file_s SimFile;
static std::set<SimFile *> openFiles[MAXRANK];
static u64 fileOp;
static bool diskFull;
static std::vector<WriteLog> wlog;
void fileReset() {
    for (auto &s : openFiles) s.clear();
    fileOp = 0; diskFull = false; wlog.clear();
}
bool isSimPath(const char *) { return true; }
void logWrite(const std::string &p, u64 off, u64 len) {   // kept for power loss
    WriteLog w;
    w.op = 0; w.path = p; w.off = off; w.len = len;
    auto &d = disk[p].data;
    w.existed = true;
    if (off < d.size()) w.old.assign(d.begin() + off, d.begin() + std::min<u64>(d.size(), off + len));
    wlog.push_back(w);
}
void applyWrite(const std::string &p, u64 off, const void *b, size_t n) {
    auto &d = disk[p].data;
    if (off + n > d.size()) d.resize(off + n, 0);
    memcpy(d.data() + off, b, n);
}
[[noreturn]] static void killJob(Fault *f) {
    if (f->param) {   // power loss: any subset of what was not synced is gone, from the last writes back
        for (size_t i = wlog.size(); i-- > 0;) {
            u64 x = draw(S_FILE);
            if (x && (x >> 8) % 2) {
                auto it = disk.find(wlog[i].path);
                if (it == disk.end()) continue;
                auto &d = it->second.data;
                u64 keep = (x >> 20) % 3 == 0 ? wlog[i].len / 2 : 0;
                for (u64 j = keep; j < wlog[i].len && wlog[i].off + j < d.size(); j++)
                    d[wlog[i].off + j] = j < wlog[i].old.size() ? wlog[i].old[j] : 0;
                if ((x >> 40) % 2 && wlog[i].off + wlog[i].len == d.size() && wlog[i].old.empty()) d.resize(wlog[i].off + keep);
            }
        }
    }
    jobEnd(J_KILLED, cur->rank->id, 137, f->param ? "power loss" : "killed");
}
// one file operation of the job; may be where the job is killed
bool fileOpPoint(bool *killAfterHalf) {
    u64 i = fileOp++;
    st.fileOps++;
    *killAfterHalf = false;
    for (auto &f : cfg.faults)
        if (f.kind == F_KILL && f.index == (i64)i && !f.fired) {
            f.fired = true; st.faultsFired[F_KILL]++;
            u64 x = draw(S_FILE);
            if (x && (x >> 8) % 2) { *killAfterHalf = true; return true; }
            killJob(&f);
        }
    return false;
}
void killNow() {
    for (auto &f : cfg.faults) if (f.kind == F_KILL && f.fired) killJob(&f);
    jobEnd(J_KILLED, cur->rank->id, 137, "killed");
}
static SimFile *fchk(MPI_File f) {
    if (!openFiles[cur->rank->id].count(f)) return nullptr;
    return f;
}
void fileFinalizeCheck(Rank *r) {
    for (SimFile *f : openFiles[r->id]) violate("file.unclosed", "rank %d finalizes with the file %s open", r->id, f->path.c_str());
}
extern "C" {
int MPI_File_open(MPI_Comm cm, const char *path, int mode, MPI_Info, MPI_File *out) {
    Call k("MPI_File_open");
    int x = ctxId(cm);
    int me = crank(x);
    bool half; 
    bool kill = fileOpPoint(&half);
    bool wr = mode & (MPI_MODE_WRONLY | MPI_MODE_RDWR);
    char bad = faultAt(wr ? F_OPENW_FAIL : F_OPENR_FAIL, cur->rank->id, (i64)st.opens[cur->rank->id]) ? 1 : 0;
    st.opens[cur->rank->id]++;
    u64 key;
    char ex[64]; snprintf(ex, sizeof ex, "mode %d", mode);
    Coll &c = collEnter(C_FOPEN, x, 1, 0, 0, 0, std::string(ex) + " " + path, &bad, 1, &key);
    if (c.complete && c.result == 0) {   // this rank came last: decide for all
        int r = -1;
        std::string p = path;
        bool exists = disk.count(p);
        for (int i = 0; i < csize(x); i++) if (!c.in[i].empty() && c.in[i][0]) r = MPI_ERR_IO;
        int acc = !!(mode & MPI_MODE_RDONLY) + !!(mode & MPI_MODE_WRONLY) + !!(mode & MPI_MODE_RDWR);
        if (acc != 1) r = MPI_ERR_AMODE;
        else if (r < 0) {
            if (exists && (mode & MPI_MODE_EXCL) && (mode & MPI_MODE_CREATE)) r = MPI_ERR_FILE_EXISTS;
            else if (!exists && !(mode & MPI_MODE_CREATE)) r = MPI_ERR_NO_SUCH_FILE;
            else if (!exists) disk[p] = DiskFile();
        }
        c.result = r;
    }
    if (kill) killNow();
    collWait(c, "MPI_File_open");
    int r = c.result;
    collLeave(c, key);
    logEvent(0x51, (u64)r);
    if (r > 0) return r;
    SimFile *f = new SimFile();
    f->path = path; f->mode = mode; f->rank = cur->rank; f->open = true; f->et = 1; f->ctx = x;
    if (mode & MPI_MODE_APPEND) f->pos = disk[f->path].data.size();
    openFiles[cur->rank->id].insert(f);
    *out = f;
    (void)me;
    return MPI_SUCCESS;
}
int MPI_File_close(MPI_File *fh) {
    Call k("MPI_File_close");
    SimFile *f = fchk(*fh);
    if (!f) return MPI_ERR_FILE;
    bool half; bool kill = fileOpPoint(&half);
    if (kill) killNow();
    Rank *r = cur->rank;
    bool fail = faultAt(F_CLOSE_FAIL, r->id, (i64)st.closes[r->id]);
    st.closes[r->id]++;
    if (fail && f->lastLen) {   // what the close could not flush is lost
        auto &d = disk[f->path].data;
        for (u64 j = 0; j < f->lastLen && f->lastOff + j < d.size(); j++) d[f->lastOff + j] = j < f->lastOld.size() ? f->lastOld[j] : 0;
    }
    u64 key;
    Coll &c = collEnter(C_FCLOSE, f->ctx, 0, 0, 0, 0, f->path, "", 0, &key);
    collWait(c, "MPI_File_close");
    collLeave(c, key);
    if (f->mode & MPI_MODE_DELETE_ON_CLOSE) disk.erase(f->path);
    openFiles[r->id].erase(f);
    delete f;
    *fh = MPI_FILE_NULL;
    return fail ? MPI_ERR_IO : MPI_SUCCESS;
}
int MPI_File_delete(const char *p, MPI_Info) {
    Call k("MPI_File_delete");
    bool half; if (fileOpPoint(&half)) { if (half) disk.erase(p); killNow(); }
    if (faultAt(F_DELETE_FAIL, cur->rank->id, 0)) return MPI_ERR_ACCESS;
    if (!disk.count(p)) return MPI_ERR_NO_SUCH_FILE;
    for (auto &s : openFiles) for (SimFile *f : s) if (f->path == p) return MPI_ERR_FILE_IN_USE;
    disk.erase(p);
    logEvent(0x52);
    return MPI_SUCCESS;
}
int MPI_File_seek(MPI_File h, MPI_Offset o, int wh) {
    Call k("MPI_File_seek");
    SimFile *f = fchk(h);
    if (!f) return MPI_ERR_FILE;
    i64 base = wh == MPI_SEEK_SET ? 0 : wh == MPI_SEEK_CUR ? (i64)f->pos : (i64)((disk[f->path].data.size() - f->disp) / f->et);
    if (base + o < 0) return MPI_ERR_ARG;
    f->pos = (u64)(base + o);
    return MPI_SUCCESS;
}
int MPI_File_get_position(MPI_File h, MPI_Offset *o) { SimFile *f = fchk(h); if (!f) return MPI_ERR_FILE; *o = (i64)f->pos; return MPI_SUCCESS; }
int MPI_File_get_size(MPI_File h, MPI_Offset *o) { Call k("MPI_File_get_size"); SimFile *f = fchk(h); if (!f) return MPI_ERR_FILE; *o = (i64)disk[f->path].data.size(); return MPI_SUCCESS; }
static int setSize(MPI_File h, MPI_Offset n, bool growOnly) {
    SimFile *f = fchk(h);
    if (!f) return MPI_ERR_FILE;
    u64 key; Coll &c = collEnter(C_FSETSIZE, f->ctx, 0, 0, 0, 0, f->path + std::to_string(n), "", 0, &key);
    if (c.complete && !c.result) { c.result = 1; auto &d = disk[f->path].data; if (!growOnly || (u64)n > d.size()) d.resize((size_t)n, 0); }
    collWait(c, "MPI_File_set_size");
    collLeave(c, key);
    return MPI_SUCCESS;
}
int MPI_File_set_size(MPI_File h, MPI_Offset n) { Call k("MPI_File_set_size"); return setSize(h, n, false); }
int MPI_File_preallocate(MPI_File h, MPI_Offset n) { Call k("MPI_File_preallocate"); return setSize(h, n, true); }
int MPI_File_sync(MPI_File h) {
    Call k("MPI_File_sync");
    SimFile *f = fchk(h);
    if (!f) return MPI_ERR_FILE;
    u64 key; Coll &c = collEnter(C_FSYNC, f->ctx, 0, 0, 0, 0, f->path, "", 0, &key);
    if (c.complete) wlog.clear();
    collWait(c, "MPI_File_sync");
    collLeave(c, key);
    return MPI_SUCCESS;
}
int MPI_File_set_view(MPI_File h, MPI_Offset disp, MPI_Datatype et, MPI_Datatype, const char *, MPI_Info) {
    Call k("MPI_File_set_view");
    SimFile *f = fchk(h);
    if (!f) return MPI_ERR_FILE;
    f->disp = (u64)disp; f->et = tsize(et) ? tsize(et) : 1; f->pos = 0;
    u64 key; Coll &c = collEnter(C_FVIEW, f->ctx, 0, 0, 0, 0, f->path, "", 0, &key);
    collWait(c, "MPI_File_set_view");
    collLeave(c, key);
    return MPI_SUCCESS;
}
static int fread_(SimFile *f, u64 off, void *b, int n, MPI_Datatype t, MPI_Status *s, u64 *moved) {
    Rank *r = cur->rank;
    *moved = 0;
    if (!f) return MPI_ERR_FILE;
    if (n < 0) return MPI_ERR_COUNT;
    if (f->mode & MPI_MODE_WRONLY) return MPI_ERR_ACCESS;
    bool half; if (fileOpPoint(&half)) killNow();
    u64 i = st.freads[r->id]++;
    size_t z = (size_t)n * tsize(t);
    touch(b, z, true);
    if (faultAt(F_READ_EIO, r->id, (i64)i)) return MPI_ERR_IO;
    auto &d = disk[f->path].data;
    u64 a = f->disp + off * f->et;
    u64 got = a < d.size() ? std::min<u64>(z, d.size() - a) : 0;
    if (Fault *ft = faultAt(F_READ_SHORT, r->id, (i64)i)) { u64 keep = z ? (u64)ft->param % z : 0; if (got > keep) got = keep; }
    if (got) memcpy(b, d.data() + a, got);
    if (s) { s->bytes = got; s->MPI_SOURCE = MPI_ANY_SOURCE; s->MPI_TAG = MPI_ANY_TAG; }
    *moved = got;
    logEvent(0x53, got);
    return MPI_SUCCESS;
}
static int fwrite_(SimFile *f, u64 off, const void *b, int n, MPI_Datatype t, MPI_Status *s, u64 *moved) {
    Rank *r = cur->rank;
    *moved = 0;
    if (!f) return MPI_ERR_FILE;
    if (n < 0) return MPI_ERR_COUNT;
    if (f->mode & MPI_MODE_RDONLY) return MPI_ERR_READ_ONLY;
    size_t z = (size_t)n * tsize(t);
    touch(b, z, false);
    u64 a = f->disp + off * f->et;
    bool half;
    bool kill = fileOpPoint(&half);
    u64 i = st.fwrites[r->id]++;
    u64 k = z;
    int rc = MPI_SUCCESS;
    if (faultAt(F_WRITE_ENOSPC, r->id, (i64)i)) diskFull = true;
    if (Fault *ft = faultAt(F_WRITE_EIO, r->id, (i64)i)) { rc = MPI_ERR_IO; k = z ? (u64)ft->param % z : 0; }
    else if (diskFull) { rc = MPI_ERR_NO_SPACE; k = 0; }
    else if (Fault *ft = faultAt(F_WRITE_SHORT, r->id, (i64)i)) k = z ? (u64)ft->param % z : 0;
    if (kill && half) k = z / 2;
    if (k) {
        logWrite(f->path, a, k);
        auto &d = disk[f->path].data;
        f->lastOff = a; f->lastLen = k;
        f->lastOld.clear();
        if (a < d.size()) f->lastOld.assign(d.begin() + a, d.begin() + std::min<u64>(d.size(), a + k));
        applyWrite(f->path, a, b, k);
    }
    if (kill) killNow();
    if (s && rc == MPI_SUCCESS) { s->bytes = k; s->MPI_SOURCE = MPI_ANY_SOURCE; s->MPI_TAG = MPI_ANY_TAG; }
    *moved = k;
    logEvent(0x54, a, hashBytes((const u8 *)b, k));
    return rc;
}
int MPI_File_read(MPI_File h, void *b, int n, MPI_Datatype t, MPI_Status *s) { Call k("MPI_File_read"); SimFile *f = fchk(h); u64 m; int r = fread_(f, f ? f->pos : 0, b, n, t, s, &m); if (f) f->pos += m / f->et; return r; }
int MPI_File_read_at(MPI_File h, MPI_Offset o, void *b, int n, MPI_Datatype t, MPI_Status *s) { Call k("MPI_File_read_at"); u64 m; return fread_(fchk(h), (u64)o, b, n, t, s, &m); }
int MPI_File_write(MPI_File h, const void *b, int n, MPI_Datatype t, MPI_Status *s) { Call k("MPI_File_write"); SimFile *f = fchk(h); u64 m; int r = fwrite_(f, f ? f->pos : 0, b, n, t, s, &m); if (f) f->pos += m / f->et; return r; }
int MPI_File_write_at(MPI_File h, MPI_Offset o, const void *b, int n, MPI_Datatype t, MPI_Status *s) { Call k("MPI_File_write_at"); u64 m; return fwrite_(fchk(h), (u64)o, b, n, t, s, &m); }
static void rwAll(SimFile *f, const char *nm) {
    if (!f) return;
    u64 key; Coll &c = collEnter(C_FRW, f->ctx, 0, 0, 0, 0, f->path + nm, "", 0, &key);
    collWait(c, nm);
    collLeave(c, key);
}
int MPI_File_read_all(MPI_File h, void *b, int n, MPI_Datatype t, MPI_Status *s) { Call k("MPI_File_read_all"); SimFile *f = fchk(h); rwAll(f, "MPI_File_read_all"); u64 m; int r = fread_(f, f ? f->pos : 0, b, n, t, s, &m); if (f) f->pos += m / f->et; return r; }
int MPI_File_read_at_all(MPI_File h, MPI_Offset o, void *b, int n, MPI_Datatype t, MPI_Status *s) { Call k("MPI_File_read_at_all"); SimFile *f = fchk(h); rwAll(f, "MPI_File_read_at_all"); u64 m; return fread_(f, (u64)o, b, n, t, s, &m); }
int MPI_File_write_all(MPI_File h, const void *b, int n, MPI_Datatype t, MPI_Status *s) { Call k("MPI_File_write_all"); SimFile *f = fchk(h); rwAll(f, "MPI_File_write_all"); u64 m; int r = fwrite_(f, f ? f->pos : 0, b, n, t, s, &m); if (f) f->pos += m / f->et; return r; }
int MPI_File_write_at_all(MPI_File h, MPI_Offset o, const void *b, int n, MPI_Datatype t, MPI_Status *s) { Call k("MPI_File_write_at_all"); SimFile *f = fchk(h); rwAll(f, "MPI_File_write_at_all"); u64 m; return fwrite_(f, (u64)o, b, n, t, s, &m); }
// non-blocking file operations: done as late as allowed, at their completion
static int fileReq(MPI_File h, u64 off, void *b, int n, MPI_Datatype t, bool wr, MPI_Request *r) {
    if (!fchk(h)) return MPI_ERR_FILE;
    if (n < 0) return MPI_ERR_COUNT;
    Req *q = newReq(Req::FILEOP);
    q->done = true; q->fh = h; q->off = off; q->buf = (u8 *)b; q->pn = n; q->pt = t; q->wr = wr;
    q->cap = (size_t)n * tsize(t);
    touch(b, q->cap, !wr);
    if (b && q->cap) pinAdd(cur->rank, b, q->cap, !wr);
    q->finish = [](Req *q) {
        u64 m;
        if (q->buf && q->cap) pinDel(q->rank, q->buf, q->cap, !q->wr);
        SimFile *f = fchk(q->fh);
        if (!f) fatal("mpi.usage", "a file is closed with operations under way");
        return q->wr ? fwrite_(f, q->off, q->buf, q->pn, q->pt, &q->st, &m) : fread_(f, q->off, q->buf, q->pn, q->pt, &q->st, &m);
    };
    *r = q;
    return MPI_SUCCESS;
}
int MPI_File_iread_at(MPI_File h, MPI_Offset o, void *b, int n, MPI_Datatype t, MPI_Request *r) { Call k("MPI_File_iread_at"); return fileReq(h, (u64)o, b, n, t, false, r); }
int MPI_File_iwrite_at(MPI_File h, MPI_Offset o, const void *b, int n, MPI_Datatype t, MPI_Request *r) { Call k("MPI_File_iwrite_at"); return fileReq(h, (u64)o, (void *)b, n, t, true, r); }
static u64 advance(MPI_File h, int n, MPI_Datatype t) { SimFile *f = fchk(h); if (!f) return 0; u64 p = f->pos; f->pos += (u64)n * tsize(t) / f->et; return p; }
int MPI_File_iread(MPI_File h, void *b, int n, MPI_Datatype t, MPI_Request *r) { Call k("MPI_File_iread"); return fileReq(h, advance(h, n, t), b, n, t, false, r); }
int MPI_File_iwrite(MPI_File h, const void *b, int n, MPI_Datatype t, MPI_Request *r) { Call k("MPI_File_iwrite"); return fileReq(h, advance(h, n, t), (void *)b, n, t, true, r); }
}
