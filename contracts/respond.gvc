// Building an HTTP response: buffered writers are modelled by what was written to them.
ghost bufio.Writer.$c seq       // written but not flushed
ghost bufio.Writer.$w int       // the buffer it writes to
ghost bytes.Buffer.$c seq
uf itoa(2) byte
uf itoalen(1) len
uf stext(2) byte
uf stextlen(1) len
uf hdr(3) byte
uf hdrlen(2) len
spec dec(n) = seqfn(itoalen(n), k, itoa(n, k))
spec statustext(n) = seqfn(stextlen(n), k, stext(n, k))
spec headers(h) = tag(h) == 0 ? empty : seqfn(hdrlen(tag(h), ref(h)), k, hdr(tag(h), ref(h), k))

assumption "a bufio.Writer over a bytes.Buffer appends what is written to it, without errors"
model bufio.NewWriter(w)(b) {
  new b : bufio.Writer
  assert "responses are written to a buffer": istype(*bytes.Buffer, w)
  b.$w = ref(w)
  b.$c = empty
  return b
}
model bufio.NewWriterSize(w, n)(b) {
  new b : bufio.Writer
  assert "responses are written to a buffer": istype(*bytes.Buffer, w)
  b.$w = ref(w)
  b.$c = empty
  return b
}
model bufio.Writer.WriteString(b, s)(n, err) {
  b.$c = cat(b.$c, str(s))
  return len(s), nil
}
model bufio.Writer.Write(b, p)(n, err) {
  b.$c = cat(b.$c, bytes(p))
  return len(p), nil
}
model bufio.Writer.WriteByte(b, c)(err) {
  b.$c = cat(b.$c, unit(c))
  return nil
}
model bufio.Writer.Flush(b)(err) {
  let t = cast(*bytes.Buffer, b.$w)
  t.$c = cat(t.$c, b.$c)
  b.$c = empty
  return nil
}
model bytes.Buffer.WriteString(b, s)(n, err) {
  b.$c = cat(b.$c, str(s))
  return len(s), nil
}
model bytes.Buffer.Write(b, p)(n, err) {
  b.$c = cat(b.$c, bytes(p))
  return len(p), nil
}
model bytes.Buffer.WriteByte(b, c)(err) {
  b.$c = cat(b.$c, unit(c))
  return nil
}
model bytes.Buffer.String(b)(s) {
  return conv(string, b.$c)
}
model bytes.Buffer.Bytes(b)(r) {
  let s = conv(string, b.$c)
  call r = convert.StringToBytes(s)
  return r
}
assumption "strconv.Itoa and http.StatusText are functions of the number"
model strconv.Itoa(n)(s) {
  return conv(string, dec(n))
}
model http.StatusText(n)(s) {
  return conv(string, statustext(n))
}
model io.WriteString(w, s)(n, err) {
  assert "written to a buffered writer": istype(*bufio.Writer, w)
  let b = unbox(*bufio.Writer, w)
  b.$c = cat(b.$c, str(s))
  return len(s), nil
}
model io.Writer.Write(w, p)(n, err) {
  assert "written to a buffered writer": istype(*bufio.Writer, w)
  let b = unbox(*bufio.Writer, w)
  b.$c = cat(b.$c, bytes(p))
  return len(p), nil
}
assumption "user headers write themselves without errors, the same way each time"
model ws.HandshakeHeader.WriteTo(h, w)(n, err) {
  assert "headers are written to the response": istype(*bufio.Writer, w)
  let b = unbox(*bufio.Writer, w)
  let s = headers(h)
  b.$c = cat(b.$c, s)
  return len(s), nil
}
uf emsg(3) byte
uf emsglen(2) len
spec message(e) = seqfn(emsglen(tag(e), ref(e)), k, emsg(tag(e), ref(e), k))
assumption "the message of an error is a function of the error"
model error.Error(e)(s) {
  if istype(*ws.rejectConnectionError, e) {
    let r = unbox(*ws.rejectConnectionError, e)
    run s = ws.rejectConnectionError.Error(r)
    return s
  }
  return conv(string, message(e))
}
