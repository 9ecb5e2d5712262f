// C17: WebSocket control frames are answered correctly.
include "wsout.gvc"

ghost g_reason seq    // the reason of the close frame at hand
ghost g_utf8 bool     // is valid UTF-8
assumption "utf8.ValidString decides whether its argument is valid UTF-8"
model utf8.ValidString(s)(ok) {
  assert "the reason is what is checked": str(s) == g_reason
  return g_utf8
}
model utf8.Valid(s)(ok) {
  assert "the reason is what is checked": bytes(s) == g_reason
  return g_utf8
}

// status codes an endpoint may send (RFC 6455, 7.4.1; codes from 5000 are not covered by the RFC)
spec goodcode(c) = (1000 <= c && c <= 1003) || (1007 <= c && c <= 1011) || (3000 <= c && c < 5000)
spec badcode(c) = c < 1000 || (1004 <= c && c <= 1006) || (1012 <= c && c < 3000)

// a control frame as the decoder returns it: its header and its payload
model verif.control(w, c, op, payload)() {
  obj hd : ws.Header
  assume hd.OpCode == op && hd.Length == len(payload)
  let ctx = conv(any, hd)
  run r = websocket.HandlerWrap.OnMessage(w, c, ctx, payload)
  call verif.flush(c, r)
  assert "a control frame never reaches the handler": g_nmsg == 0
}

proof C17_ping {
  call w, c = verif.wrapped()
  any payload : []byte
  let data = bytes(payload)
  call verif.control(w, c, 9, payload)
  assert "a ping is answered by a pong with its payload": frame(g_wire, 10, data)
  assert "the write side stays open": !g_shut
}

proof C17_other {
  call w, c = verif.wrapped()
  any payload : []byte
  any op : ws.OpCode
  assume 8 <= op && op <= 15 && op != 8 && op != 9
  call verif.control(w, c, op, payload)
}

proof C17_close_empty {
  call w, c = verif.wrapped()
  any payload : []byte
  assume len(payload) == 0
  g_close = true
  call verif.control(w, c, 8, payload)
  assert "an empty close frame is answered by an empty close frame": frame(g_wire, 8, empty)
  assert "then the write side is shut down": g_unsent == 0 ==> g_shut
}

proof C17_close {
  call w, c = verif.wrapped()
  any payload : []byte
  assume len(payload) > 0
  let data = bytes(payload)
  let code = len(data) < 2 ? 0 : 256 * data[0] + data[1]
  g_reason = sub(data, min(2, len(data)), len(data))
  g_close = true
  call verif.control(w, c, 8, payload)
  assert "a close frame is answered by a close frame": frame(g_wire, 8, sub(g_wire, 2, len(g_wire)))
  assert "with a status and a payload of at most 125 bytes": 4 <= len(g_wire) && len(g_wire) <= 127
  let status = 256 * g_wire[2] + g_wire[3]
  assert "an invalid status or reason is a protocol error": badcode(code) || (len(data) >= 2 && !g_utf8) ==> status == 1002
  assert "a valid status is echoed": goodcode(code) && g_utf8 ==> status == code
  assert "with the reason": goodcode(code) && g_utf8 ==> sub(g_wire, 4, len(g_wire)) == sub(g_reason, 0, min(len(g_reason), 123))
  assert "then the write side is shut down": g_unsent == 0 ==> g_shut
}

// the close payload codec
proof C17_body {
  any code : ws.StatusCode
  any reason : string
  let r = str(reason)
  run p = ws.NewCloseFrameBody(code, reason)
  let s = bytes(p)
  assert "status, then the reason cropped to 125 bytes in all": len(s) == 2 + min(len(r), 123) && 256 * s[0] + s[1] == code && sub(s, 2, len(s)) == sub(r, 0, min(len(r), 123))
  run code2, reason2 = ws.ParseCloseFrameData(p)
  assert "and is parsed to the same": code2 == code && str(reason2) == sub(r, 0, min(len(r), 123))
}

proof C17_put {
  any code : ws.StatusCode
  any reason : string
  any p : []byte
  assume len(p) >= 2 + len(reason)
  let r = str(reason)
  let old0 = bytes(p)
  run ws.PutCloseFrameBody(p, code, reason)
  let s = bytes(p)
  assert "status and reason are put at the front": 256 * s[0] + s[1] == code && sub(s, 2, 2 + len(r)) == r
  assert "and nothing else is touched": sub(s, 2 + len(r), len(s)) == sub(old0, 2 + len(r), len(s))
}

proof C17_parse {
  any p : []byte
  let s = bytes(p)
  run code, reason = ws.ParseCloseFrameData(p)
  assert "a payload without status": len(s) < 2 ==> code == 0 && len(reason) == 0
  assert "a payload with status": len(s) >= 2 ==> code == 256 * s[0] + s[1] && str(reason) == sub(s, 2, len(s))
}

proof C17_pack {
  any reason : string
  let r = str(reason)
  run bs, err = util.PackCloseData(reason)
  let s = bytes(bs)
  assert "a normal closure is packed": err == nil && frame(s, 8, sub(s, 2, len(s))) && len(s) == 4 + min(len(r), 123) && 256 * s[2] + s[3] == 1000 && sub(s, 4, len(s)) == sub(r, 0, min(len(r), 123))
}
