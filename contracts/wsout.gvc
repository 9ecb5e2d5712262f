// What the WebSocket handler wrapper makes a connection send: the loop's side of gev.Connection is modelled (the reply
// returned by OnMessage is packed and sent, then queued sends are done, each followed by its completion callback).
include "wsbase.gvc"
include "rfc.gvc"

contract ws.WriteHeader(h)(bs, err) {
  requires legal(*h)
  let l = h.Length
  let n = fhl(l)
  allocs bs = n + (h.Masked ? 4 : 0)
  ensures err == nil
  ensures bytes(bs)[0] == (h.Fin ? 128 : 0) + 16 * h.Rsv + h.OpCode
  ensures bytes(bs)[1] == (h.Masked ? 128 : 0) + (l <= 125 ? l : (l <= 65535 ? 126 : 127))
  ensures 125 < l && l <= 65535 ==> 256 * bytes(bs)[2] + bytes(bs)[3] == l
  ensures 65535 < l ==> be64(bytes(bs), 2) == l
  ensures h.Masked ==> bytes(bs)[n] == h.Mask[0] && bytes(bs)[n+1] == h.Mask[1] && bytes(bs)[n+2] == h.Mask[2] && bytes(bs)[n+3] == h.Mask[3]
}

ghost g_c int
ghost g_p int
ghost g_h int
ghost g_wire seq      // the bytes sent
ghost g_unsent int    // how many of them still wait in the output buffer
ghost g_shut bool     // the write side is shut down
ghost g_close bool    // the reply under consideration is the answer to a close frame
ghost g_nsend int
ghost g_s1 seq
ghost g_f1 int
ghost g_s2 seq
ghost g_f2 int

assumption "a queued send runs after the reply of the message being handled, on a connection that is still open (C02, C09)"
model gev.Connection.Send(c, data, opts)(err) {
  assert "sent on its own connection": ref(c) == g_c
  let p = cast(*websocket.Protocol, g_p)
  run bs = websocket.Protocol.Packet(p, c, data)
  new o : gev.ConnectionOptions
  if len(opts) > 0 {
    let f = opts[0]
    run f(o)
  }
  if g_nsend == 0 {
    g_s1 = bytes(bs)
    g_f1 = ref(o.sendInLoopFinish)
  } else {
    assert "no more than two sends": g_nsend == 1
    g_s2 = bytes(bs)
    g_f2 = ref(o.sendInLoopFinish)
  }
  g_nsend = g_nsend + 1
  return nil
}
model gev.Connection.WriteBufferLength(c)(n) {
  assert "of its own connection": ref(c) == g_c
  return g_unsent
}
model gev.Connection.ShutdownWrite(c)(err) {
  assert "the write side of its own connection is shut down": ref(c) == g_c
  assert "a close frame is sent before the write side is shut down": g_close && len(g_wire) > 0 && g_unsent == 0
  g_shut = true
  return nil
}

ghost g_next seq
model verif.sent()() {
  let s = g_next
  assert "nothing is sent after the write side is shut down": len(s) > 0 ==> !g_shut
  g_wire = cat(g_wire, s)
  any u : int
  assume 0 <= u && u <= g_unsent + len(s)
  g_unsent = u
}

// the loop sends what OnMessage returned, then runs what was queued
model verif.flush(c, r)() {
  let p = cast(*websocket.Protocol, g_p)
  if r != nil {
    run pk = websocket.Protocol.Packet(p, c, r)
    g_next = bytes(pk)
    call verif.sent()
  }
  if g_nsend > 0 {
    any d1 : any
    g_next = g_s1
    call verif.sent()
    if g_f1 != 0 {
      let fin = cast(func, g_f1)
      run fin(d1)
    }
  }
  if g_nsend > 1 {
    any d2 : any
    g_next = g_s2
    call verif.sent()
    if g_f2 != 0 {
      let fin2 = cast(func, g_f2)
      run fin2(d2)
    }
  }
}

// the user's handler
ghost g_nmsg int
ghost g_msg seq
ghost g_out seq
ghost g_typ int
model websocket.WSHandler.OnMessage(h, c, msg)(t, out) {
  assert "the message goes to the server's handler": ref(h) == g_h && ref(c) == g_c
  g_nmsg = g_nmsg + 1
  g_msg = bytes(msg)
  any o : []byte
  any ty : ws.MessageType
  assume ty == ws.MessageText || ty == ws.MessageBinary
  g_out = bytes(o)
  g_typ = ty
  return ty, o
}

// a connection and the wrapper of a user's handler
model verif.wrapped()(w0, c0) {
  new c : gev.Connection
  obj u : ws.Upgrader
  any h : websocket.WSHandler
  assume h != nil && log.logger != nil
  run p = websocket.New(u)
  run w = websocket.NewHandlerWrap(u, h)
  g_c = ref(c)
  g_p = ref(p)
  g_h = ref(h)
  g_wire = empty
  g_unsent = 0
  any u0 : int
  assume u0 >= 0
  g_unsent = u0
  g_shut = false
  g_close = false
  g_nsend = 0
  g_nmsg = 0
  return w, c
}

// s is one final unmasked frame with this opcode and payload
spec fhl(n) = n <= 125 ? 2 : (n <= 65535 ? 4 : 10)
spec frame(s, op, d) = len(s) == fhl(len(d)) + len(d) && s[0] == 128 + op && s[1] == (len(d) <= 125 ? len(d) : (len(d) <= 65535 ? 126 : 127)) && (125 < len(d) && len(d) <= 65535 ==> 256 * s[2] + s[3] == len(d)) && (65535 < len(d) ==> be64(s, 2) == len(d)) && sub(s, fhl(len(d)), len(s)) == d
