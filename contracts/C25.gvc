// C25: outgoing WebSocket messages become one well-formed final frame.
include "wsout.gvc"
include "ring.gvc"

model verif.buffer()(b0) {
  obj b : ringbuffer.RingBuffer
  assume ring(b) && ref(b.buf) != 0 && ref(b.buf) != g_pool
  return b
}

proof C25_message {
  call w, c = verif.wrapped()
  obj hd : ws.Header
  any payload : []byte
  let data = bytes(payload)
  assume hd.OpCode < 8     // control frames: see C17
  let ctx = conv(any, hd)
  run r = websocket.HandlerWrap.OnMessage(w, c, ctx, payload)
  call verif.flush(c, r)
  assert "the message is delivered once": g_nmsg == 1 && g_msg == data
  if len(g_out) > 0 {
    assert "the answer is one final frame of its type": frame(g_wire, g_typ == ws.MessageText ? 1 : 2, g_out)
  } else {
    assert "an empty answer sends nothing": len(g_wire) == 0
  }
}

// data received before the upgrade completes: the decoder never makes a message of it, and the handler never sees it
proof C25_before {
  call w, c = verif.wrapped()
  call b = verif.buffer()
  let p = cast(*websocket.Protocol, g_p)
  c.protocol = conv(gev.Protocol, p)
  let kv = cast(*gev.KeyValueContext, ref(c))
  assume g_pool != 0
  g_nup = 0
  run ctx, out = websocket.Protocol.UnPacket(p, c, b)
  assert "the handshake comes first": g_nup == 1
  assert "received data is not taken for a message": !istype(*ws.Header, ctx)
  let res = bytes(out)
  if ctx != nil || len(out) > 0 {
    run r = websocket.HandlerWrap.OnMessage(w, c, ctx, out)
    call verif.flush(c, r)
    assert "the handshake's answer is sent": g_wire == res
  }
  assert "and never reaches the handler": g_nmsg == 0
  if !g_upok {
    call b2 = verif.buffer()
    run ctx2, out2 = websocket.Protocol.UnPacket(p, c, b2)
    assert "a failed handshake leaves the connection as it was": g_nup == 2 && !istype(*ws.Header, ctx2)
  }
}

proof C25_pack {
  any payload : []byte
  any ty : ws.MessageType
  assume ty == ws.MessageText || ty == ws.MessageBinary
  let data = bytes(payload)
  run bs, err = util.PackData(ty, payload)
  assert "a message is packed": err == nil
  assert "as one final frame of its type": frame(bytes(bs), ty == ws.MessageText ? 1 : 2, data)
  assert "and left as it was": bytes(payload) == data
}
