// C13: protobuf framing round-trips and never over- or under-reads.
include "ring.gvc"

assumption "the byte slices handed out by the pool (pbytes) are used by nobody else until they are given back"

ghost g_pool bmap   // memory given back to the pool
ghost g_buf int      // the memory of the ring buffer
model pbytes.GetLen(n)(b0) {
  assert "a length the pool accepts": n >= 0
  any b : []byte
  assume len(b) == n && cap(b) < pow2(40) && ref(b) != g_buf && ref(b) != 0 && !g_pool[ref(b)]
  return b
}
model pbytes.Put(b) {
  assert "a slice is given back once": !g_pool[ref(b)]
  g_pool[ref(b)] = true
  // others may write to it from now on
  havoc bytes(b)
}

spec be32(b) = 16777216 * rat(b, 0) + 65536 * rat(b, 1) + 256 * rat(b, 2) + rat(b, 3)
spec be16(b) = 256 * rat(b, 4) + rat(b, 5)

model verif.buffer()(b0) {
  obj b : ringbuffer.RingBuffer
  assume ring(b) && ref(b.buf) != 0
  g_buf = ref(b.buf)
  return b
}

// the layout of a frame
proof C13_pack {
  sym ty : string
  sym data : []byte
  assume len(ty) <= 65535 && len(data) + len(ty) + 2 < pow2(32)
  let t = str(ty)
  let d = bytes(data)
  run m = protobuf.PackMessage(ty, data)
  let n = len(data) + len(ty) + 2
  assert "a frame has length, type length, type and data": len(m) == n + 4
  assert "the length is big-endian": m[0] == n / 16777216 && m[1] == n / 65536 % 256 && m[2] == n / 256 % 256 && m[3] == n % 256
  assert "the type length is big-endian": m[4] == len(ty) / 256 && m[5] == len(ty) % 256
  assert "the type follows": sub(bytes(m), 6, 6 + len(ty)) == t
  assert "the data follows": sub(bytes(m), 6 + len(ty), n + 4) == d
  assert "the caller's data is left alone": bytes(data) == d
}

// a complete frame at the front of the buffer
proof C13_unpack {
  call b = verif.buffer()
  new p : protobuf.Protocol
  sym c : *gev.Connection
  let n = be32(b)
  let tl = be16(b)
  assume rlen(b) >= 6 && n >= 2 + tl && rlen(b) >= n + 4
  let before = content(b)
  run ctx, out = protobuf.Protocol.UnPacket(p, c, b)
  assert "the type is returned": istype(string, ctx) && str(unbox(string, ctx)) == sub(before, 6, 6 + tl)
  assert "the data is returned": bytes(out) == sub(before, 6 + tl, 4 + n)
  assert "exactly the frame is consumed": ring(b) && content(b) == sub(before, 4 + n, len(before))
}

// an incomplete one
proof C13_incomplete {
  call b = verif.buffer()
  new p : protobuf.Protocol
  sym c : *gev.Connection
  assume rlen(b) < 4 || rlen(b) < be32(b) + 4
  let before = content(b)
  run ctx, out = protobuf.Protocol.UnPacket(p, c, b)
  assert "an incomplete frame yields nothing": ctx == nil && len(out) == 0
  assert "and consumes nothing": ring(b) && content(b) == before
}

// anything else: no panic (every index, slice, conversion and allocation is an obligation), at most the frame is consumed
proof C13_any {
  call b = verif.buffer()
  new p : protobuf.Protocol
  sym c : *gev.Connection
  let before = content(b)
  let n = be32(b)
  run ctx, out = protobuf.Protocol.UnPacket(p, c, b)
  assert "the buffer stays well formed": ring(b)
  assert "no more than one frame is consumed": len(before) >= 4 ==> rlen(b) >= len(before) - n - 4
}

// the whole round trip: what the encoder wrote (its layout is proved above), wherever it lies in the buffer
proof C13_roundtrip {
  sym ty : string
  sym data : []byte
  assume len(ty) <= 65535 && len(data) + len(ty) + 2 < pow2(32)
  let t = str(ty)
  let d = bytes(data)
  new p : protobuf.Protocol
  sym c : *gev.Connection
  run m = protobuf.PackMessage(ty, data)
  let bm = bytes(m)
  run w = protobuf.Protocol.Packet(p, c, conv(any, m))
  let n = len(t) + len(d) + 2
  assert "packing a packed message changes nothing": bytes(w) == bm && len(bm) == n + 4
  assert "the length reads back": 16777216 * w[0] + 65536 * w[1] + 256 * w[2] + w[3] == n
  assert "the type length reads back": 256 * w[4] + w[5] == len(t)
  assert "the type and the data follow": sub(bm, 6, 6 + len(t)) == t && sub(bm, 6 + len(t), n + 4) == d
  call b = verif.buffer()
  assume rlen(b) >= n + 4
  // the frame is in the buffer, byte by byte
  assume be32(b) == n && be16(b) == len(t)
  assume (forall k in 0..len(t) : rat(b, 6 + k) == t[k]) && (forall k in 0..len(d) : rat(b, 6 + len(t) + k) == d[k])
  let before = content(b)
  run ctx, out = protobuf.Protocol.UnPacket(p, c, b)
  assert "the type comes back": istype(string, ctx) && str(unbox(string, ctx)) == t
  assert "the data comes back": bytes(out) == d
  assert "exactly the frame is consumed": content(b) == sub(before, n + 4, len(before))
}
