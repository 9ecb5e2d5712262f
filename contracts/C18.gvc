// C18: the WebSocket handshake accepts exactly the valid upgrade requests.
include "upgrade.gvc"
// which bytes are a well-formed request line or header line
also "C19.gvc"

// from the received bytes to the lines of a request, for every content and layout of the buffer
proof C18_receive {
  call u, c, b = verif.handshake()
  let s = g_recv
  assume g_end == -1 || (0 <= g_end && crlf2(s, g_end))
  assume forall k in 0..(g_end == -1 ? len(s) : g_end) : !crlf2(s, k)
  run out, hs, err = ws.Upgrader.Upgrade(u, c, b)
  assert "a complete request is parsed": g_end < 0
  assert "an incomplete request is not accepted": err != nil
  assert "and not answered": len(out) == 0
  assert "and not consumed": ring(b) && content(b) == s && g_next == 0
}

// from the lines of a request to the answer, whatever follows the request in the buffer
proof C18_decide shards 8 {
  call u, c, b = verif.handshake()
  g_mode = 2
  assume g_end >= 0 && b.r == 0 && b.w > 0
  run out, hs, err = ws.Upgrader.Upgrade(u, c, b)
  assert "what follows the request is left in the buffer": ring(b) && content(b) == g_left
  assert "every callback that must be asked is asked": err == nil ==> g_pend == 0 && (u.OnBeforeUpgrade != nil ==> g_before)
  assert "only a request read to its end is accepted": err == nil ==> readall
  assert "only a valid request is accepted": err == nil ==> !g_bad && seenall
  assert "only a request no callback rejects is accepted": err == nil ==> !g_rej
  assert "a valid request is accepted": err != nil ==> g_bad || g_rej || (readall && !seenall)
  if err == nil {
    assert "accepting is answered with 101": sub(bytes(out), 0, 13) == str("HTTP/1.1 101 ")
  } else {
    assert "a rejection is answered with an HTTP error": len(out) > 9 && sub(bytes(out), 0, 9) == str("HTTP/1.1 ")
  }
}
