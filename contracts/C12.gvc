// C12: the default protocol delivers all buffered bytes exactly once.
include "ring.gvc"

// a connection on a loop with any scratch buffer, and any buffer of received bytes; their memory is separate
model verif.receiving()(c0, b0) {
  obj c : gev.Connection
  obj l : eventloop.EventLoop
  obj ub : []byte
  obj b : ringbuffer.RingBuffer
  c.loop = l
  l.UserBuffer = ub
  assume ring(b)
  assume ref(b.buf) != 0 && (ref(*ub) != ref(b.buf) || ref(*ub) == 0)
  return c, b
}

proof C12_unpack {
  call c, b = verif.receiving()
  new d : gev.DefaultProtocol
  let before = content(b)
  let n = rlen(b)
  run ctx, out = gev.DefaultProtocol.UnPacket(d, c, b)
  assert "every buffered byte is delivered": len(out) == n
  assert "in order, unchanged": bytes(out) == before
  assert "the buffer is left empty": rlen(b) == 0 && ring(b)
  // what arrives next is delivered by the next call, and only that
  sym p : []byte
  assume ref(p) != ref(b.buf) && ref(p) != ref(*c.loop.UserBuffer)
  assume b.size + len(p) < maxint
  let next = bytes(p)
  call m, err = ringbuffer.RingBuffer.Write(b, p)
  run ctx2, out2 = gev.DefaultProtocol.UnPacket(d, c, b)
  assert "the next call delivers exactly what came after": bytes(out2) == next && rlen(b) == 0
}

proof C12_pack {
  call c, b = verif.receiving()
  new d : gev.DefaultProtocol
  sym p : []byte
  let before = bytes(p)
  run out = gev.DefaultProtocol.Packet(d, c, conv(any, p))
  assert "output passes through unchanged": bytes(out) == before && bytes(p) == before
}
