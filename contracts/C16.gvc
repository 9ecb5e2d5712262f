// C16: WebSocket frames are decoded exactly once at any segmentation.
include "ws.gvc"
also "C15.gvc"

// one call of the decoder on an upgraded connection
model verif.step(p, c, b)(done) {
  let s = content(b)
  g_nup = 0
  run ctx, out = websocket.Protocol.UnPacket(p, c, b)
  assert "no second handshake": g_nup == 0
  // names for the size of the header and of the payload
  any n : int
  any L : int
  assume n == hsize(s[1]) && L == plen(s)
  if complete(s) {
    assert "a complete frame is returned": istype(*ws.Header, ctx)
    let h = unbox(*ws.Header, ctx)
    assert "with its header": h.Fin == (s[0] >= 128) && h.Rsv == s[0] / 16 % 8 && h.OpCode == s[0] % 16 && h.Masked == (s[1] >= 128) && h.Length == L
    assert "with the length of its payload": len(out) == L
    if s[1] >= 128 {
      assert "and its payload, unmasked": forall k in 0..len(out) : out[k] == s[n + k] ^ key(s, k)
    } else {
      assert "and its payload": bytes(out) == sub(s, n, n + L)
    }
    assert "exactly the frame is consumed": ring(b) && content(b) == sub(s, n + L, len(s))
    return true
  }
  assert "an incomplete frame yields nothing": ctx == nil && len(out) == 0
  assert "and leaves the buffered bytes intact": ring(b) && content(b) == s
  return false
}

spec same(b, s, k) = k < len(s) ==> rat(b, k) == s[k]
proof C16_frames {
  call p, c = verif.upgraded()
  call b = verif.buffer()
  let s = content(b)
  call done = verif.step(p, c, b)
  if !done {
    // more bytes arrive after those (a decoder may remember what it has seen of the header)
    havoc b.*
    assume ring(b) && ref(b.buf) != 0 && ref(b.buf) != g_pool
    assume rlen(b) >= len(s) && same(b, s, 0) && same(b, s, 1) && same(b, s, 2) && same(b, s, 3) && same(b, s, 4) && same(b, s, 5) && same(b, s, 6) && same(b, s, 7) && same(b, s, 8) && same(b, s, 9) && same(b, s, 10) && same(b, s, 11) && same(b, s, 12) && same(b, s, 13)
    call again = verif.step(p, c, b)
  } else {
    // whatever was received after it
    call b2 = verif.buffer()
    call next = verif.step(p, c, b2)
  }
}
