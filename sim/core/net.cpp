#include "core/net.h"

#include <string.h>

#include <algorithm>

namespace sim {

void protocol_desync(const std::string& what) {
  violation("desync", "the parties' message streams are out of step: " + what);
}

uint64_t ChanView::bytes_sent() const { return e->net->main.dir[e->side].written; }
uint64_t ChanView::bytes_received() const { return e->net->main.dir[1 - e->side].consumed; }

Net::Net(int w, int p, int id0, int id1, bool measured, uint64_t s) : world(w), pair(p), salt(s) {
  for (int i = 0; i < 2; i++) {
    ep[i].net = this;
    ep[i].side = i;
    ep[i].id_ = i ? id1 : id0;
    ep[i].peer_id_ = i ? id0 : id1;
    ep[i].measured_ = measured;
  }
}
std::vector<Link*> Net::links() {
  std::vector<Link*> v{&main};
  for (auto& d : direct) v.push_back(d.get());
  return v;
}
bool Net::quiet(std::string* why) {
  int li = 0;
  for (Link* l : links()) {
    for (int s = 0; s < 2; s++) {
      Stream& d = l->dir[s];
      if (!d.unflushed.empty()) {
        *why = "party " + std::to_string(s) + " left " + std::to_string(d.unflushed.size()) + " bytes unflushed on stream " + std::to_string(li);
        return false;
      }
      if (d.inflight || !d.rx.empty()) {
        *why = "party " + std::to_string(1 - s) + " left " + std::to_string(d.rx.size() + d.inflight) + " bytes unread on stream " + std::to_string(li);
        return false;
      }
    }
    li++;
  }
  for (int s = 0; s < 2; s++)
    for (auto& a : ep[s].adapters)
      if (!a->tunnel_rx.empty()) { *why = "unread adapter bytes at party " + std::to_string(s); return false; }
  return true;
}

uint64_t Endpoint::sent() const { uint64_t n = 0; for (Link* l : net->links()) n += l->dir[side].written; return n; }
uint64_t Endpoint::unflushed() const { uint64_t n = 0; for (Link* l : net->links()) n += l->dir[side].unflushed.size(); return n; }
uint64_t Endpoint::received() const { uint64_t n = 0; for (Link* l : net->links()) n += l->dir[1 - side].consumed; return n; }

static void deliver(Stream* s, std::vector<uint8_t> bytes, uint64_t offset) {
  uint64_t n = bytes.size();
  s->inflight -= n;
  if (offset + n > s->lost_from) n = offset >= s->lost_from ? 0 : s->lost_from - offset;
  if (n < bytes.size()) stat(kStLostTail);
  s->rx.insert(s->rx.end(), bytes.begin(), bytes.begin() + n);
  s->delivered += n;
  wake(s);
}

// Puts bytes of `s` that may leave the sender on the wire.
static void transmit(Stream* s, size_t n, uint32_t ctx) {
  const Knobs& k = knobs();
  uint64_t off = s->flushed;
  size_t pos = 0;
  while (pos < n) {
    size_t seg = n - pos;
    if (k.p_split && seg > 1) {
      uint64_t cut = decide(Dec::kSplit, ctx, [&](Rng& r) -> uint64_t { return r.chance(k.p_split) ? 1 + r.below(seg - 1) : 0; });
      if (cut) { seg = std::min<size_t>(seg, cut); stat(kStSplit); }
    }
    uint64_t lat = 1000;
    if (k.p_latency) {
      uint64_t v = decide(Dec::kLatency, ctx, [&](Rng& r) -> uint64_t { return r.chance(k.p_latency) ? 1 + r.below(r.chance(200) ? 400000 : 3000) : 0; });
      if (v) { lat += v * 1000; stat(kStLatency); }
    }
    if (k.p_outage) {
      uint64_t v = decide(Dec::kOutage, ctx, [&](Rng& r) -> uint64_t { return r.chance(k.p_outage) ? 1 + r.below(120) : 0; });
      if (v) { lat += v * 1000000000ull; stat(kStOutage); }
    }
    uint64_t when = std::max(s->last_delivery, now() + lat);
    s->last_delivery = when;
    std::vector<uint8_t> bytes(s->unflushed.begin() + pos, s->unflushed.begin() + pos + seg);
    s->inflight += seg;
    uint64_t o = off + pos;
    at(when, [s, bytes, o] { deliver(s, bytes, o); });
    pos += seg;
  }
  s->unflushed.erase(s->unflushed.begin(), s->unflushed.begin() + n);
  s->flushed += n;
}

static uint32_t ctx_of(Endpoint* e) { return (uint32_t)((e->net->world & 3) << 4 | (e->net->pair & 7) << 1 | e->side); }

void Endpoint::op(const char* what) {
  if (dead) { if (crashed) throw CrashNow(); throw ConnectionLost("connection is closed"); }
  ops++;
  trace(2, ctx_of(this), ops);
  if (crash_at >= 0 && (int64_t)ops - 1 >= crash_at) {
    if (crash_mode == 4) {
      crash_at = -1;
      lose();
      throw ConnectionLost("the connection broke");
    }
    if (crash_mode == 0) crash(false);
    crash_pending = true;   // modes 1, 2: after this operation
  }
  yield(what);
}

void Endpoint::die() {
  dead = true;
  for (Link* l : net->links()) {
    Stream* out = &l->dir[side];
    Stream* in = &l->dir[1 - side];
    out->unflushed.clear();
    out->closed_by_sender = true;
    // the peer learns about it behind everything that still arrives
    uint64_t when = std::max(out->last_delivery, now() + 1000);
    at(when, [out, in] { out->eof = true; wake(out); in->reset_seen = true; });
    in->reset = true;
  }
}
// A connection that has failed once is of no further use.
void Endpoint::fail(const char* what) {
  if (!dead) die();
  throw ConnectionLost(what);
}
void Endpoint::lose() {
  RtScope rs;
  stat(kStLinkLoss);
  logf("LOSS of the connection at party %d, transport op %llu", side, (unsigned long long)ops);
  for (Link* l : net->links()) {
    Stream* out = &l->dir[side];
    if (!out->inflight) continue;
    uint64_t lose = decide(Dec::kOutage, 64 + ctx_of(this), [&](Rng& r) -> uint64_t { return r.chance(512) ? r.below(out->inflight + 1) : 0; });
    if (lose) out->lost_from = out->flushed - std::min<uint64_t>(lose, out->inflight);
  }
  die();
}
void Endpoint::crash(bool torn) {
  crash_effects(torn);
  throw CrashNow();
}
void Endpoint::crash_effects(bool torn) {
  RtScope rs;
  crashed = true;
  stat(kStCrash);
  logf("CRASH of party %d at transport op %llu mode %d", side, (unsigned long long)ops, crash_mode);
  // Bytes still in flight may be lost from some point on (connection reset).
  for (Link* l : net->links()) {
    Stream* out = &l->dir[side];
    if (torn) {
      if (!out->unflushed.empty()) {
        size_t n = decide(Dec::kSpill, 64 + ctx_of(this), [&](Rng& r) -> uint64_t { return r.below(out->unflushed.size()); }) % out->unflushed.size();
        if (n) { transmit(out, n, ctx_of(this)); stat(kStTorn); }
      }
    } else if (out->inflight) {
      uint64_t lose = decide(Dec::kOutage, 64 + ctx_of(this), [&](Rng& r) -> uint64_t { return r.chance(512) ? r.below(out->inflight + 1) : 0; });
      if (lose) out->lost_from = out->flushed - std::min<uint64_t>(lose, out->inflight);
    }
  }
  die();
}
void Endpoint::close() {
  if (dead) return;
  die();
}

void Endpoint::write(Link* l, const void* p, size_t n) {
  RtScope rs;
  Stream& s = l->dir[side];
  if (s.reset_seen) fail("write: connection reset by peer");
  const uint8_t* b = (const uint8_t*)p;
  s.unflushed.insert(s.unflushed.end(), b, b + n);
  s.written += n;
  l->used[side] = true;
  stat(kStBytes, n);
  const Knobs& k = knobs();
  if (k.p_spill && s.unflushed.size() > 0) {  // the sender's buffer overflows early
    uint64_t v = decide(Dec::kSpill, ctx_of(this), [&](Rng& r) -> uint64_t { return r.chance(k.p_spill) ? 1 + r.below(s.unflushed.size()) : 0; });
    if (v) { stat(kStSpill); transmit(&s, std::min<uint64_t>(v, s.unflushed.size()), ctx_of(this)); }
  }
}
void Endpoint::do_flush(Link* l) {
  RtScope rs;
  Stream& s = l->dir[side];
  if (s.reset_seen) fail("flush: connection reset by peer");
  stat(kStFlushes);
  if (crash_pending && crash_mode == 2) crash(true);
  if (!s.unflushed.empty()) transmit(&s, s.unflushed.size(), ctx_of(this));
}
void Endpoint::read(Link* l, void* p, size_t n) {
  RtScope rs;
  Stream& s = l->dir[1 - side];
  uint8_t* b = (uint8_t*)p;
  size_t got = 0;
  while (got < n) {
    if (s.rx.empty()) {
      if (s.eof) fail("read: connection closed by peer");
      block_on(&s, "recv");
      if (dead) { if (crashed) throw CrashNow(); throw ConnectionLost("connection is closed"); }
      continue;
    }
    size_t m = std::min(n - got, s.rx.size());
    const Knobs& k = knobs();
    if (k.p_short && m > 1) {
      uint64_t v = decide(Dec::kShortRecv, ctx_of(this), [&](Rng& r) -> uint64_t { return r.chance(k.p_short) ? 1 + r.below(m - 1) : 0; });
      if (v) { m = std::min<size_t>(m, v); stat(kStShortRecv); }
    }
    std::copy(s.rx.begin(), s.rx.begin() + m, b + got);
    s.rx.erase(s.rx.begin(), s.rx.begin() + m);
    got += m;
    s.consumed += m;
    if (got < n) yield("short_recv");
  }
}

static void frame(std::vector<uint8_t>* out, char kind, uint32_t idx, uint64_t n) {
  out->resize(13);
  (*out)[0] = kind;
  memcpy(out->data() + 1, &idx, 4);
  memcpy(out->data() + 5, &n, 8);
}
struct FrameHdr { char kind; uint32_t idx; uint64_t n; };
static FrameHdr read_frame(Endpoint* e) {
  uint8_t h[13];
  e->read(&e->net->main, h, 13);
  FrameHdr f;
  f.kind = h[0];
  memcpy(&f.idx, h + 1, 4);
  memcpy(&f.n, h + 5, 8);
  return f;
}
static const char* frame_name(char k) { return k == 'M' ? "a message" : k == 'A' ? "adapter data" : k == 'S' ? "a sync" : "garbage"; }

void Endpoint::send_message(const std::vector<uint8_t>& b) {
  hb::range(b.data(), b.size(), false);
  op("send");
  RtScope rs;
  stat(kStMsgs);
  std::vector<uint8_t> f;
  frame(&f, 'M', 0, b.size());
  f.insert(f.end(), b.begin(), b.end());
  write(&net->main, f.data(), f.size());
  logf("send message %zu bytes", b.size());
  if (crash_pending) crash(false);
}
std::vector<uint8_t> Endpoint::recv_message() {
  op("recv");
  std::vector<uint8_t> b;
  {
    RtScope rs;
    FrameHdr f = read_frame(this);
    if (f.kind != 'M') protocol_desync(std::string("channel recv() met ") + frame_name(f.kind));
    b.resize(f.n);
    read(&net->main, b.data(), f.n);
    if (record) { seen_plain.insert(seen_plain.end(), b.begin(), b.end()); msgs.push_back(b); }
    logf("recv message %zu bytes", b.size());
  }
  if (crash_pending) crash(false);
  return b;
}
void Endpoint::flush() {
  op("flush");
  do_flush(&net->main);
  logf("flush");
  if (crash_pending) crash(false);
  yield("flushed");
}
void Endpoint::sync() {
  op("sync");
  RtScope rs;
  std::vector<uint8_t> f;
  frame(&f, 'S', 0, 0);
  write(&net->main, f.data(), f.size());
  do_flush(&net->main);
  FrameHdr g = read_frame(this);
  if (g.kind != 'S') protocol_desync(std::string("sync() met ") + frame_name(g.kind));
  if (crash_pending) crash(false);
}
Adapter* Endpoint::open_adapter(bool direct) {
  op("open_adapter");
  RtScope rs;
  int idx = (int)adapters.size();
  Link* l = nullptr;
  if (direct) {
    while ((int)net->direct.size() <= idx) net->direct.emplace_back(new Link());
    l = net->direct[idx].get();
    if (net->ep[1 - side].dead) fail("cannot open a direct connection: peer is gone");
  }
  adapters.emplace_back(new Adapter(this, idx, l));
  if (crash_pending) crash(false);
  return adapters.back().get();
}

void Adapter::send(const void* p, int64_t n) {
  hb::range(p, n, false);
  ep->op("adapter_send");
  RtScope rs;
  if (link) {
    ep->write(link, p, n);
  } else if (n > 0) {
    std::vector<uint8_t> f;
    frame(&f, 'A', index, n);
    const uint8_t* b = (const uint8_t*)p;
    f.insert(f.end(), b, b + n);
    ep->write(&ep->net->main, f.data(), f.size());
  }
  logf("adapter %d send %lld%s", index, (long long)n, in_ot ? " (ot)" : "");
  if (ep->crash_pending) ep->crash(false);
}
void Adapter::recv(void* p, int64_t n) {
  hb::range(p, n, true);
  ep->op("adapter_recv");
  RtScope rs;
  if (link) {
    ep->read(link, p, n);
  } else {
    while ((int64_t)tunnel_rx.size() < n) {
      FrameHdr f = read_frame(ep);
      if (f.kind != 'A' || (int)f.idx != index) protocol_desync(std::string("adapter recv met ") + frame_name(f.kind));
      std::vector<uint8_t> b(f.n);
      ep->read(&ep->net->main, b.data(), f.n);
      tunnel_rx.insert(tunnel_rx.end(), b.begin(), b.end());
    }
    std::copy(tunnel_rx.begin(), tunnel_rx.begin() + n, (uint8_t*)p);
    tunnel_rx.erase(tunnel_rx.begin(), tunnel_rx.begin() + n);
  }
  if (ep->record && !in_ot) ep->seen_plain.insert(ep->seen_plain.end(), (uint8_t*)p, (uint8_t*)p + n);
  logf("adapter %d recv %lld%s", index, (long long)n, in_ot ? " (ot)" : "");
  if (ep->crash_pending) ep->crash(false);
}
void Adapter::flush() {
  ep->op("adapter_flush");
  ep->do_flush(link ? link : &ep->net->main);
  if (ep->crash_pending) ep->crash(false);
  yield("flushed");
}

// ------------------------------------------------------------------ OT
// Dealer: for OT i of call `ctr` on adapter `idx` of this session, pads
// k0, k1 (128 bit) for the sender and (r, k_r) for the receiver.
static void pad(Adapter* a, uint64_t ctr, uint64_t i, int b, uint8_t out[16]) {
  uint64_t s = mix2(mix2(mix2(knobs().seed ^ 0x4f54ull, a->ep->net->salt), mix2((uint64_t)a->ep->net->pair * 131 + a->ep->net->world, a->index)), mix2(ctr, i * 2 + b));
  uint64_t v0 = mix2(s, 1), v1 = mix2(s, 2);
  memcpy(out, &v0, 8);
  memcpy(out + 8, &v1, 8);
}
static bool choice_mask(Adapter* a, uint64_t ctr, uint64_t i) {
  return mix2(mix2(mix2(knobs().seed ^ 0x4f5452ull, a->ep->net->salt), mix2((uint64_t)a->ep->net->pair * 131 + a->ep->net->world, a->index)), mix2(ctr, i)) & 1;
}
struct OTHeader { char magic[4]; uint32_t kind; uint64_t ctr; int64_t n; };

OTSender::OTSender(Adapter* a, char kind, int64_t n) : a_(a), kind_(kind), n_(n) {
  RtScope rs;
  ctr_ = a_->ot_count++;
  a_->in_ot = true;
  OTHeader h;
  a_->recv(&h, sizeof h);
  if (memcmp(h.magic, "OTrq", 4)) protocol_desync("OT sender met bytes that are not an OT request");
  if (h.kind != (uint32_t)kind) protocol_desync("one party runs plain OT, the other correlated OT");
  if (h.ctr != ctr_) protocol_desync("OT call counters differ");
  if (h.n != n) protocol_desync("OT lengths differ: sender " + std::to_string(n) + " receiver " + std::to_string(h.n));
  d_.resize((n + 7) / 8);
  a_->recv(d_.data(), d_.size());
  out_.resize(n * 32);
  if (kind == 'c') a_->ep->cots += n;
  stat(kStOTs, n);
}
void OTSender::random_block(void* out) { RtScope rs; rand_bytes((uint8_t*)out, 16); }
void OTSender::put(int64_t i, const void* m0, const void* m1) {
  hb::range(m0, 16, false);
  hb::range(m1, 16, false);
  RtScope rs;
  int d = (d_[i / 8] >> (i % 8)) & 1;
  uint8_t k[2][16];
  pad(a_, ctr_, i, 0, k[0]);
  pad(a_, ctr_, i, 1, k[1]);
  const uint8_t* m[2] = {(const uint8_t*)m0, (const uint8_t*)m1};
  if (a_->ep->record)
    for (const uint8_t* b : m) a_->ep->seen_in.insert(a_->ep->seen_in.end(), b, b + 16);
  for (int b = 0; b < 2; b++)
    for (int j = 0; j < 16; j++) out_[i * 32 + b * 16 + j] = m[b][j] ^ k[b ^ d][j];
}
void OTSender::finish() {
  RtScope rs;
  a_->send(out_.data(), out_.size());   // like emp: the last message is not flushed here
  a_->in_ot = false;
}

OTReceiver::OTReceiver(Adapter* a, char kind, int64_t n, const bool* b) : a_(a), n_(n), b_(b) {
  RtScope rs;
  ctr_ = a_->ot_count++;
  a_->in_ot = true;
  OTHeader h;
  memcpy(h.magic, "OTrq", 4);
  h.kind = (uint32_t)kind;
  if (kind == 'c') a_->ep->cots += n;
  h.ctr = ctr_;
  h.n = n;
  a_->send(&h, sizeof h);
  r_.resize(n);
  std::vector<uint8_t> d((n + 7) / 8);
  for (int64_t i = 0; i < n; i++) {
    r_[i] = choice_mask(a_, ctr_, i);
    if (r_[i] ^ (b[i] ? 1 : 0)) d[i / 8] |= 1 << (i % 8);
  }
  a_->send(d.data(), d.size());
  a_->flush();
  in_.resize(n * 32);
  a_->recv(in_.data(), in_.size());
  a_->in_ot = false;
}
void OTReceiver::get(int64_t i, void* out) {
  hb::range(out, 16, true);
  RtScope rs;
  uint8_t k[16];
  pad(a_, ctr_, i, r_[i], k);
  int c = b_[i] ? 1 : 0;
  // slot b was padded with k[b ^ d], d = c ^ r, so slot c with k[r]
  uint8_t* o = (uint8_t*)out;
  for (int j = 0; j < 16; j++) o[j] = in_[i * 32 + c * 16 + j] ^ k[j];
  if (a_->ep->record) a_->ep->seen_ot.insert(a_->ep->seen_ot.end(), o, o + 16);
}

}  // namespace sim
