// A WebSocket connection of the plugin: the handshake and the byte pool are modelled, everything else is the real code.
include "ring.gvc"
include "header.gvc"
include "cipher.gvc"

trusted contract ws.Cipher(p, m, o) {
  requires o >= 0 && o % 4 == 0 && o + len(p) <= maxint
  sets bytes(p) = seqfn(len(p), k, old(bytes(p))[k] ^ keybyte(m, k))
}

include "wsbase.gvc"

// any buffer of received bytes
model verif.buffer()(b0) {
  obj b : ringbuffer.RingBuffer
  assume ring(b) && ref(b.buf) != 0 && ref(b.buf) != g_pool
  return b
}

// a connection that has completed the handshake, and its protocol
model verif.upgraded()(p0, c0) {
  new c : gev.Connection
  obj u : ws.Upgrader
  assume log.logger != nil && g_pool != 0
  run p = websocket.New(u)
  c.protocol = conv(gev.Protocol, p)
  let kv = cast(*gev.KeyValueContext, ref(c))
  call b = verif.buffer()
  g_upok = true
  g_nup = 0
  run ctx, out = websocket.Protocol.UnPacket(p, c, b)
  assert "the handshake is done first": g_nup == 1 && g_upc == ref(c) && g_upb == ref(b)
  return p, c
}

// what RFC 6455 says about the bytes s
spec complete_header(s) = len(s) >= 2 && len(s) >= hsize(s[1])
spec bad_header(s) = s[1] % 128 == 127 && s[2] >= 128
spec plen(s) = s[1] % 128 < 126 ? s[1] % 128 : (s[1] % 128 == 126 ? 256 * s[2] + s[3] : be64(s, 2))
spec complete(s) = complete_header(s) && !bad_header(s) && len(s) - hsize(s[1]) >= plen(s)
spec key(s, k) = ite3s(k % 4, s, 2 + ext(s[1]))
spec ite3s(j, s, e) = j == 0 ? s[e] : (j == 1 ? s[e+1] : (j == 2 ? s[e+2] : s[e+3]))
