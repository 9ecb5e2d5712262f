// C14: WebSocket frame headers are encoded and decoded as RFC 6455 section 5.2 prescribes.
include "ring.gvc"

include "header.gvc"

proof C14_write {
  obj h : ws.Header
  assume legal(h)
  let len7 = h.Length <= 125 ? h.Length : (h.Length <= 65535 ? 126 : 127)
  let n = 2 + (h.Length <= 125 ? 0 : (h.Length <= 65535 ? 2 : 8))
  let l = h.Length
  let masked = h.Masked
  let m0 = h.Mask[0]
  let m1 = h.Mask[1]
  let m2 = h.Mask[2]
  let m3 = h.Mask[3]
  run bs, err = ws.WriteHeader(h)
  assert "a legal header is written": err == nil
  let s = bytes(bs)
  assert "the header has the minimal size": len(s) == n + (masked ? 4 : 0)
  assert "fin, reserved bits and opcode": s[0] == (h.Fin ? 128 : 0) + 16 * h.Rsv + h.OpCode
  assert "mask bit and length": s[1] == (masked ? 128 : 0) + len7
  assert "16-bit length": len7 == 126 ==> 256 * s[2] + s[3] == l
  assert "64-bit length": len7 == 127 ==> be64(s, 2) == l
  assert "masking key": masked ==> s[n] == m0 && s[n+1] == m1 && s[n+2] == m2 && s[n+3] == m3
}

model verif.received()(b0, scratch) {
  obj b : ringbuffer.RingBuffer
  assume ring(b) && ref(b.buf) != 0
  any t : []byte
  assume cap(t) >= 14 && ref(t) != 0 && ref(t) != ref(b.buf)
  return b, t
}

proof C14_read {
  call b, scratch = verif.received()
  let s = content(b)
  run h, err = ws.VirtualReadHeader(scratch, b)
  if len(s) < 2 || len(s) < hsize(s[1]) {
    assert "an incomplete header is not ready": err == ws.ErrHeaderNotReady
    assert "and nothing is consumed": ring(b) && content(b) == s
    return
  }
  if s[1] % 128 == 127 && s[2] >= 128 {
    assert "a 64-bit length with the top bit set is an error": err != nil && err != ws.ErrHeaderNotReady
    return
  }
  let e = 2 + ext(s[1])
  assert "a complete header is read": err == nil
  assert "fin": h.Fin == (s[0] >= 128)
  assert "reserved bits": h.Rsv == s[0] / 16 % 8
  assert "opcode": h.OpCode == s[0] % 16
  assert "mask bit": h.Masked == (s[1] >= 128)
  assert "7-bit length": s[1] % 128 < 126 ==> h.Length == s[1] % 128
  assert "16-bit length": s[1] % 128 == 126 ==> h.Length == 256 * s[2] + s[3]
  assert "64-bit length": s[1] % 128 == 127 ==> h.Length == be64(s, 2)
  assert "masking key": h.Masked ==> h.Mask[0] == s[e] && h.Mask[1] == s[e+1] && h.Mask[2] == s[e+2] && h.Mask[3] == s[e+3]
  assert "no masking key": !h.Masked ==> h.Mask[0] == 0 && h.Mask[1] == 0 && h.Mask[2] == 0 && h.Mask[3] == 0
  run ringbuffer.RingBuffer.VirtualFlush(b)
  assert "exactly the header is consumed": ring(b) && content(b) == sub(s, hsize(s[1]), len(s))
}
