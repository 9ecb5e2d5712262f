// C20: handshake responses carry the right status line, headers and accept key.
include "upgrade.gvc"

assumption "sha1.Sum and base64 encoding are functions of their input; the encoding of 20 bytes has 28 bytes"
ghost g_sum seq
ghost g_sums bool
ghost g_acc seq
model sha1.Sum(data)(r) {
  assert "the accept key is computed from the client's key and the GUID": bytes(data) == cat(g_nonce, str("258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
  any r : [20]byte
  g_sum = seqfn(20, k, r[k])
  g_sums = true
  return r
}
// the same hash, computed step by step
ghost g_hin seq
ghost g_hash int
model sha1.New()(h) {
  any h : hash.Hash
  assume tag(h) != 0 && !istype(*bufio.Writer, h)
  g_hash = ref(h)
  g_hin = empty
  return h
}
model hash.Hash.Write(h, p)(n, err) {
  assert "one hash at a time": ref(h) == g_hash
  g_hin = cat(g_hin, bytes(p))
  return len(p), nil
}
model hash.Hash.Sum(h, b)(r) {
  assert "the accept key is computed from the client's key and the GUID": ref(h) == g_hash && g_hin == cat(g_nonce, str("258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
  any d : [20]byte
  g_sum = seqfn(20, k, d[k])
  g_sums = true
  let s = conv(string, cat(bytes(b), g_sum))
  call r = convert.StringToBytes(s)
  return r
}
trusted contract base64.Encoding.Encode(e, dst, src)() {
  requires g_sums && bytes(src) == g_sum
  requires ref(e) == ref(base64.StdEncoding)
  requires len(dst) >= 28
  sets bytes(dst[0:28]) = g_acc
}
model base64.Encoding.EncodeToString(e, src)(s) {
  assert "the accept key is the base64 of the hash": g_sums && bytes(src) == g_sum && ref(e) == ref(base64.StdEncoding)
  return conv(string, g_acc)
}
uf exts(3) byte
uf extslen(2) len
spec extensions(r, n) = seqfn(extslen(r, n), k, exts(r, n, k))
assumption "httphead.WriteOptions writes the extensions it is given"
model httphead.WriteOptions(w, os)(n, err) {
  let b = unbox(*bufio.Writer, w)
  let s = extensions(ref(os), len(os))
  b.$c = cat(b.$c, s)
  return len(s), nil
}
spec crlf = str("\r\n")
spec field(name, s) = cat(str(name), cat(s, crlf))
spec statusline(code) = cat(str("HTTP/1.1 "), cat(dec(code), cat(str(" "), cat(statustext(code), cat(crlf, str("Content-Type: text/plain; charset=utf-8\r\n"))))))
spec body(m) = cat(str("Content-Length: "), cat(dec(len(m)), cat(str("\r\n\r\n"), m)))
spec reason(e) = isrej(e) ? str(unbox(*ws.rejectConnectionError, e).reason) : message(e)
spec rejheader(e) = isrej(e) ? headers(unbox(*ws.rejectConnectionError, e).header) : empty

proof C20 shards 8 {
  call u, c, b = verif.handshake()
  g_mode = 2
  assume g_end >= 0 && b.r == 0 && b.w > 0
  g_sums = false
  any acc : []byte
  assume len(acc) == 28
  g_acc = bytes(acc)
  run out, hs, err = ws.Upgrader.Upgrade(u, c, b)
  let o = bytes(out)
  if err == nil {
    let h0 = headers(u.Header)
    let p = len(g_proto) == 0 ? empty : field("Sec-WebSocket-Protocol: ", g_proto)
    let e = g_exts == 0 ? empty : field("Sec-WebSocket-Extensions: ", extensions(g_ext, g_exts))
    let h1 = !g_before || g_h1t == 0 ? empty : seqfn(hdrlen(g_h1t, g_h1), k, hdr(g_h1t, g_h1, k))
    assert "the response to a valid request": o == cat(str("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n"), cat(field("Sec-WebSocket-Accept: ", g_acc), cat(p, cat(e, cat(h0, cat(h1, crlf))))))
    assert "the negotiated subprotocol and extensions are reported": str(hs.Protocol) == g_proto && ref(hs.Extensions) == g_ext && len(hs.Extensions) == g_exts
  } else {
    assert "a rejection by a callback keeps its error": g_rej ==> tag(err) == g_tag && ref(err) == g_ref
    assert "an invalid request has the status of what is wrong": g_bad ==> status(err) == g_code
    assert "a missing header is a bad request": !g_bad && !g_rej ==> status(err) == 400
    assert "the response to a rejected request": o == cat(statusline(status(err)), cat(headers(u.Header), cat(rejheader(err), body(reason(err)))))
  }
}

// the options of a user's rejection
proof C20_options {
  obj r : ws.rejectConnectionError
  any code : int
  any s : string
  any h : ws.HandshakeHeader
  let code0 = r.code
  let reason0 = str(r.reason)
  let t0 = tag(r.header)
  let d0 = ref(r.header)
  choose {
    run f = ws.RejectionStatus(code)
    run f(r)
    assert "RejectionStatus chooses the status": r.code == code && str(r.reason) == reason0 && tag(r.header) == t0 && ref(r.header) == d0
  } or {
    run f = ws.RejectionReason(s)
    run f(r)
    assert "RejectionReason chooses the reason": r.code == code0 && str(r.reason) == str(s) && tag(r.header) == t0 && ref(r.header) == d0
  } or {
    run f = ws.RejectionHeader(h)
    run f(r)
    assert "RejectionHeader chooses the headers": r.code == code0 && str(r.reason) == reason0 && tag(r.header) == tag(h) && ref(r.header) == ref(h)
  }
}

// any options are applied in their order to one new error
ghost g_opts int
ghost g_nopt int
ghost g_rejp int
ghost g_rcode int
ghost g_rreason seq
spec opts = *cast(*[]ws.RejectOption, g_opts)
model "dyn:func(*ws.rejectConnectionError)"(f, r)() {
  assert "the options are applied in order, each once": g_nopt < len(opts) && ref(f) == ref(opts[g_nopt])
  assert "to one error": r != nil && (g_nopt == 0 || ref(r) == g_rejp)
  assert "a new one": g_nopt == 0 ==> r.code == 0 && len(r.reason) == 0 && tag(r.header) == 0
  assert "as the options before left it": g_nopt > 0 ==> r.code == g_rcode && str(r.reason) == g_rreason
  g_nopt = g_nopt + 1
  g_rejp = ref(r)
  havoc r.*
  g_rcode = r.code
  g_rreason = str(r.reason)
}
proof C20_reject {
  new l : []ws.RejectOption
  any os : []ws.RejectOption
  assume given2(os)
  assume forall k in 0..len(os) : ref(os[k]) != 0
  *l = os
  g_opts = ref(l)
  g_nopt = 0
  run e = ws.RejectConnectionError(os)
  assert "every option is applied": g_nopt == len(os)
  assert "to the error returned": isrej(e) && (len(os) > 0 ==> ref(e) == g_rejp && unbox(*ws.rejectConnectionError, e).code == g_rcode && str(unbox(*ws.rejectConnectionError, e).reason) == g_rreason)
}
spec given2(b) = 0 <= ref(b) && ref(b) < pow2(59) && len(b) < pow2(40)
loop ws.RejectConnectionError {
  invariant $i == g_nopt
  invariant 0 <= g_nopt && g_nopt <= len(opts)
  invariant g_nopt > 0 ==> ref($v) == g_rejp
  invariant g_nopt == 0 ==> $v.code == 0 && len($v.reason) == 0 && tag($v.header) == 0
  invariant g_nopt > 0 ==> $v.code == g_rcode && str($v.reason) == g_rreason
}

// a request with the wrong version of the protocol is told the right one
proof C20_version {
  let e = ws.ErrHandshakeUpgradeRequired
  assert "status 426": isrej(e) && status(e) == 426
  let h = unbox(*ws.rejectConnectionError, e).header
  assert "with the version supported": istype(ws.HandshakeHeaderString, h) && str(unbox(ws.HandshakeHeaderString, h)) == str("Sec-WebSocket-Version: 13\r\n")
}

// the adapters for user headers write what they are given
proof C20_headers {
  new t : bytes.Buffer
  t.$c = empty
  any tt : io.Writer
  assume istype(*bytes.Buffer, tt) && ref(tt) == ref(t)
  call w = bufio.NewWriter(tt)
  any c0 : []byte
  w.$c = bytes(c0)
  any ww : io.Writer
  assume istype(*bufio.Writer, ww) && ref(ww) == ref(w)
  choose {
    any s : ws.HandshakeHeaderString
    run n, err = ws.HandshakeHeaderString.WriteTo(s, ww)
    assert "a string is written": err == nil && n == len(s) && w.$c == cat(bytes(c0), str(s))
  } or {
    any p : ws.HandshakeHeaderBytes
    let q = bytes(p)
    run n, err = ws.HandshakeHeaderBytes.WriteTo(p, ww)
    assert "bytes are written": err == nil && n == len(p) && w.$c == cat(bytes(c0), q)
  } or {
    any f : ws.HandshakeHeaderFunc
    assume f != nil
    g_fn = ref(f)
    g_part = 0
    run n, err = ws.HandshakeHeaderFunc.WriteTo(f, ww)
    assert "a function writes itself": g_part == 1 && w.$c == cat(bytes(c0), g_p1) && n == len(g_p1)
  } or {
    any h : ws.HandshakeHeaderHTTP
    g_fn = ref(h)
    g_part = 0
    run n, err = ws.HandshakeHeaderHTTP.WriteTo(h, ww)
    assert "HTTP headers are written": g_part == 2 && w.$c == cat(bytes(c0), cat(g_p1, g_p2)) && n == len(g_p1) + len(g_p2)
  }
}
ghost g_fn int
ghost g_part int
ghost g_p1 seq
ghost g_p2 seq
model "dyn:func(io.Writer) (int64, error)"(f, w)(n, err) {
  assert "the function is called once": g_part == 0 && ref(f) == g_fn && istype(*bufio.Writer, w)
  let b = unbox(*bufio.Writer, w)
  any p : []byte
  g_p1 = bytes(p)
  g_part = 1
  b.$c = cat(b.$c, g_p1)
  any err : error
  return len(p), err
}
assumption "http.Header.Write writes the headers to the writer it is given, with Write and WriteString"
model http.Header.Write(h, w)(err) {
  assert "the headers are written once": g_part == 0 && ref(h) == g_fn
  g_part = 2
  any p : []byte
  any s : string
  g_p1 = bytes(p)
  g_p2 = str(s)
  if istype(*ws.writer, w) {
    let c = unbox(*ws.writer, w)
    run n, e = ws.writer.Write(c, p)
    run n2, e2 = ws.writer.WriteString(c, s)
  } else {
    call n3, e3 = io.Writer.Write(w, p)
    call n4, e4 = io.WriteString(w, s)
  }
  return nil
}
