// The WebSocket handshake: what the server's Upgrader does with a request of any number of header lines. The parsers of
// a single line are modelled by the kinds of lines there are (C19 says which bytes are which), user callbacks are arbitrary.
include "ring.gvc"
include "respond.gvc"

assumption "bytes.Index returns the first position of its separator, bytes.Split all pieces between separators"
assumption "the pieces of a request up to its first empty line are its request line, non-empty header lines, and two empty pieces"
ghost g_recv seq      // the bytes received
ghost g_end int       // where the first CR LF CR LF starts in them, or -1
ghost g_mode int      // 1: up to the parsing, for every layout of the buffer; 2: the parsing, and whatever is left in the buffer
ghost g_b int
ghost g_left seq
ghost g_lines int    // the pieces
ghost g_next int      // lines parsed
spec crlf2(s, p) = p + 4 <= len(s) && s[p] == 13 && s[p+1] == 10 && s[p+2] == 13 && s[p+3] == 10

model bytes.Index(b, sep)(i) {
  if g_mode == 2 {
    return g_end
  }
  let s = bytes(b)
  if len(sep) == 4 && bytes(sep) == str("\r\n\r\n") {
    if s == g_recv {
      return g_end
    }
    any p : int
    assume p == -1 || (0 <= p && crlf2(s, p))
    assume forall k in 0..(p == -1 ? len(s) : p) : !crlf2(s, k)
    return p
  }
  any q : int
  assume q >= -1 && q + len(sep) <= len(s)
  return q
}
model bytes.Split(b, sep)(ls) {
  let buf = cast(*ringbuffer.RingBuffer, g_b)
  if g_mode == 1 {
    assert "exactly the bytes of the request are parsed": g_end >= 0 && bytes(b) == sub(g_recv, 0, g_end + 4)
    assert "as lines": bytes(sep) == str("\r\n")
    assert "and exactly those are consumed": g_next == 0 && ring(buf) && content(buf) == sub(g_recv, g_end + 4, len(g_recv))
    stop
  }
  havoc buf.*
  assume ring(buf)
  g_left = content(buf)
  let ls = *cast(*[][]byte, g_lines)
  return ls
}
spec lines = *cast(*[][]byte, g_lines)
spec isline(l, k) = ref(l) == ref(lines[k]) && off(l) == off(lines[k]) && len(l) == len(lines[k])

// what has been seen of the request
ghost g_bad bool      // something invalid
ghost g_rej bool      // rejected by a callback
ghost g_code int      // the status for that
ghost g_tag int       // the callback's error
ghost g_ref int
ghost g_host bool
ghost g_up bool
ghost g_conn bool
ghost g_ver bool
ghost g_key bool
ghost g_nonce seq     // the client's key
ghost g_pend int      // a callback that must be asked before anything else: 1 OnRequest 2 OnHost 3 OnHeader 4 subprotocol 5 extensions
ghost g_val seq       // with this value
ghost g_val2 seq
ghost g_u int
ghost g_c int
ghost g_sel bool      // a subprotocol has been selected
ghost g_proto seq
ghost g_ext int       // the extensions selected
ghost g_exts int

model verif.invalid(code)() {
  g_bad = true
  g_code = code
}

model ws.httpParseRequestLine(line)(req, err) {
  assert "the request line comes first": g_next == 0 && isline(line, 0)
  g_next = 1
  new r : ws.httpRequestLine
  let u = cast(*ws.Upgrader, g_u)
  any uri : []byte
  r.uri = uri
  fork k in 0..4
  if k == 0 {
    call verif.invalid(400)
    return *r, ws.ErrMalformedRequest
  }
  any m : []byte
  any major : int
  any minor : int
  assume major >= 0 && minor >= 0
  r.method = m
  r.major = major
  r.minor = minor
  if k == 1 {
    assume major != 1 || minor < 1
    call verif.invalid(505)
  } else if k == 2 {
    assume major == 1 && minor >= 1 && bytes(m) != str("GET")
    call verif.invalid(405)
  } else {
    assume major == 1 && minor >= 1 && bytes(m) == str("GET")
    if u.OnRequest != nil {
      g_pend = 1
      g_val = bytes(uri)
    }
  }
  return *r, nil
}

model ws.httpParseHeaderLine(line)(k, v, ok) {
  assert "the header lines are parsed in order": g_next > 0 && g_next < len(lines) && isline(line, g_next) && len(line) > 0
  assert "nothing is parsed after a rejection": !g_bad && !g_rej
  assert "every callback is asked in its turn": g_pend == 0
  g_next = g_next + 1
  let u = cast(*ws.Upgrader, g_u)
  any v : []byte
  let s = bytes(v)
  g_val = s
  fork kind in 0..9
  if kind == 0 {
    call verif.invalid(400)
    return nil, nil, false
  }
  if kind == 1 {
    call k = convert.StringToBytes("Host")
    g_host = true
    if u.OnHost != nil {
      g_pend = 2
    }
    return k, v, true
  }
  if kind == 2 {
    call k = convert.StringToBytes("Upgrade")
    g_up = true
    if s != str("websocket") {
      call verif.invalid(400)
    }
    return k, v, true
  }
  if kind == 3 {
    call k = convert.StringToBytes("Connection")
    g_conn = true
    if s != str("Upgrade") && s != str("upgrade") {
      call verif.invalid(400)
    }
    return k, v, true
  }
  if kind == 4 {
    call k = convert.StringToBytes("Sec-Websocket-Version")
    g_ver = true
    if s != str("13") {
      call verif.invalid(426)
    }
    return k, v, true
  }
  if kind == 5 {
    call k = convert.StringToBytes("Sec-Websocket-Key")
    g_key = true
    if len(v) != 24 {
      call verif.invalid(400)
    } else {
      g_nonce = s
    }
    return k, v, true
  }
  if kind == 6 {
    call k = convert.StringToBytes("Sec-Websocket-Protocol")
    if len(g_proto) == 0 && (u.ProtocolCustom != nil || u.Protocol != nil) {
      g_pend = 4
    }
    return k, v, true
  }
  if kind == 7 {
    call k = convert.StringToBytes("Sec-Websocket-Extensions")
    if u.ExtensionCustom != nil || u.Extension != nil {
      g_pend = 5
    }
    return k, v, true
  }
  any k : []byte
  assume bytes(k) != str("Host") && bytes(k) != str("Upgrade") && bytes(k) != str("Connection") && bytes(k) != str("Sec-Websocket-Version") && bytes(k) != str("Sec-Websocket-Key") && bytes(k) != str("Sec-Websocket-Protocol") && bytes(k) != str("Sec-Websocket-Extensions")
  g_val2 = bytes(k)
  if u.OnHeader != nil {
    g_pend = 3
  }
  return k, v, true
}

assumption "user callbacks do not change the upgrader, the connection's buffer or the request"
model verif.verdict()(err) {
  g_pend = 0
  any e : error
  if e != nil {
    assume isrej(e) ==> ref(e) != 0
    g_rej = true
    g_tag = tag(e)
    g_ref = ref(e)
  }
  return e
}
model "dyn:func(*gev.Connection, []byte) (error)"(f, c, b)(err) {
  let u = cast(*ws.Upgrader, g_u)
  assert "a callback gets its connection": ref(c) == g_c
  assert "a callback gets its value": bytes(b) == g_val
  assert "callbacks are asked in their turn": (g_pend == 1 && ref(f) == ref(u.OnRequest)) || (g_pend == 2 && ref(f) == ref(u.OnHost))
  call e = verif.verdict()
  return e
}
model "dyn:func(*gev.Connection, []byte, []byte) (error)"(f, c, k, b)(err) {
  let u = cast(*ws.Upgrader, g_u)
  assert "a callback gets its connection": ref(c) == g_c
  assert "OnHeader gets the header": bytes(b) == g_val && bytes(k) == g_val2
  assert "callbacks are asked in their turn": g_pend == 3 && ref(f) == ref(u.OnHeader)
  call e = verif.verdict()
  return e
}
model "dyn:func(*gev.Connection, []byte) (string, bool)"(f, c, b)(s, ok) {
  let u = cast(*ws.Upgrader, g_u)
  assert "a callback gets its connection": ref(c) == g_c
  assert "ProtocolCustom is asked in its turn, and about the header's value": g_pend == 4 && ref(f) == ref(u.ProtocolCustom) && bytes(b) == g_val
  g_pend = 0
  any s : string
  any ok : bool
  g_proto = str(s)
  if !ok {
    call verif.invalid(400)
  }
  return s, ok
}
model "dyn:func(*gev.Connection, []byte, []httphead.Option) ([]httphead.Option, bool)"(f, c, b, old)(os, ok) {
  let u = cast(*ws.Upgrader, g_u)
  assert "a callback gets its connection": ref(c) == g_c
  assert "ExtensionCustom is asked in its turn, and about the header's value": g_pend == 5 && ref(f) == ref(u.ExtensionCustom) && bytes(b) == g_val
  assert "with the extensions selected so far": ref(old) == g_ext && len(old) == g_exts
  g_pend = 0
  any os : []httphead.Option
  any ok : bool
  g_ext = ref(os)
  g_exts = len(os)
  if !ok {
    call verif.invalid(400)
  }
  return os, ok
}

assumption "httphead.ScanTokens calls its function with each token in turn until it returns false (shown for up to two tokens), and tells whether what it scanned is well formed; OptionSelector.Select returns the extensions selected by the given function"
model httphead.ScanTokens(data, it)(ok) {
  let u = cast(*ws.Upgrader, g_u)
  assert "the header's value is scanned for subprotocols": g_pend == 4 && u.ProtocolCustom == nil && u.Protocol != nil && bytes(data) == g_val
  g_pend = 0
  any ok : bool
  fork n in 0..3
  if n > 0 {
    any t1 : []byte
    assume len(t1) > 0
    g_val2 = bytes(t1)
    g_sel = false
    call more = verif.token(it, t1)
    assert "scanning stops at the first token selected": more == !g_sel
    if g_sel {
      return true
    }
    if n > 1 {
      any t2 : []byte
      assume len(t2) > 0
      g_val2 = bytes(t2)
      call more2 = verif.token(it, t2)
      assert "scanning stops at the first token selected": more2 == !g_sel
      if g_sel {
        return true
      }
    }
  }
  if !ok {
    call verif.invalid(400)
  }
  return ok
}
model verif.token(it, t)(more) {
  let f = it
  run more = f(t)
  return more
}
model "dyn:func([]byte) (bool)"(f, b)(ok) {
  let u = cast(*ws.Upgrader, g_u)
  assert "the user's function is asked about each token": ref(f) == ref(u.Protocol) && bytes(b) == g_val2
  any ok : bool
  if ok {
    g_sel = true
    g_proto = bytes(b)
  }
  return ok
}
model httphead.OptionSelector.Select(s, data, old)(os, ok) {
  let u = cast(*ws.Upgrader, g_u)
  assert "the header's value is scanned for extensions": g_pend == 5 && u.ExtensionCustom == nil && bytes(data) == g_val && ref(s.Check) == ref(u.Extension)
  assert "with the extensions selected so far": ref(old) == g_ext && len(old) == g_exts
  g_pend = 0
  any os : []httphead.Option
  any ok : bool
  g_ext = ref(os)
  g_exts = len(os)
  if !ok {
    call verif.invalid(400)
  }
  return os, ok
}
ghost g_before bool
ghost g_h1 int        // the headers given by OnBeforeUpgrade
ghost g_h1t int
assumption "OnBeforeUpgrade returns a header or an error, never both (its documentation)"
model "dyn:func(*gev.Connection) (ws.HandshakeHeader, error)"(f, c)(h, err) {
  let u = cast(*ws.Upgrader, g_u)
  assert "OnBeforeUpgrade is asked last": ref(f) == ref(u.OnBeforeUpgrade) && ref(c) == g_c && readall && seenall && !g_bad && !g_rej && g_pend == 0 && !g_before
  g_before = true
  any h : ws.HandshakeHeader
  g_h1 = ref(h)
  g_h1t = tag(h)
  call e = verif.verdict()
  if e != nil {
    return nil, e
  }
  return h, e
}
spec seenall = g_host && g_up && g_conn && g_ver && g_key
spec readall = g_next == len(lines) || len(lines[g_next]) == 0    // up to the first empty piece
spec n2i(b) = b ? 1 : 0

// the status of an error
spec isrej(e) = istype(*ws.rejectConnectionError, e)
spec status(e) = isrej(e) && unbox(*ws.rejectConnectionError, e).code != 0 ? unbox(*ws.rejectConnectionError, e).code : 500

loop ws.Upgrader.Upgrade {
  invariant $p == nil <==> !g_bad && !g_rej
  invariant !g_bad && !g_rej
  invariant g_bad ==> isrej($p) && status($p) == g_code
  invariant g_rej ==> tag($p) == g_tag && ref($p) == g_ref
  invariant isrej($p) ==> ref($p) != 0
  invariant !(g_bad && g_rej)
  invariant g_pend == 0
  invariant !g_before
  invariant $i == g_next
  invariant $i + 1 == g_next
  invariant 1 <= g_next && g_next <= len(lines)
  invariant $i == n2i(g_host) + 2 * n2i(g_up) + 4 * n2i(g_conn) + 8 * n2i(g_ver) + 16 * n2i(g_key)
  invariant $b <==> g_host
  invariant $b <==> g_up
  invariant $b <==> g_conn
  invariant $b <==> g_ver
  invariant $b <==> g_key
  invariant str($v.Protocol) == g_proto
  invariant ref($v.Extensions) == g_ext && len($v.Extensions) == g_exts
  invariant g_key && !g_bad && !g_rej ==> bytes($s) == g_nonce
  invariant g_key && !g_bad && !g_rej ==> bytes($v[0:24]) == g_nonce
}

model verif.handshake()(u0, c0, b0) {
  obj u : ws.Upgrader
  obj c : gev.Connection
  obj b : ringbuffer.RingBuffer
  assume ring(b) && ref(b.buf) != 0
  g_u = ref(u)
  g_c = ref(c)
  g_b = ref(b)
  g_mode = 1
  g_recv = content(b)
  let s = g_recv
  any e : int
  assume e >= -1 && e + 4 <= len(s)
  g_end = e
  new l : [][]byte
  g_lines = ref(l)
  any ls : [][]byte
  let n = len(ls)
  assume n >= 3 && n < pow2(40) && len(ls[n-2]) == 0 && len(ls[n-1]) == 0
  *l = ls
  g_next = 0
  g_bad = false
  g_rej = false
  g_host = false
  g_up = false
  g_conn = false
  g_ver = false
  g_key = false
  g_pend = 0
  g_before = false
  g_ext = 0
  g_exts = 0
  g_proto = empty
  g_h1 = 0
  g_h1t = 0
  return u, c, b
}
