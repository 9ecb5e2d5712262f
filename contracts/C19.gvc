// C19: HTTP request-line and header parsing is exact and never panics.
include "http.gvc"

// the request line is split at its first two spaces, and its third part is the version
proof C19_request {
  any line : []byte
  assume given(line)
  let s = bytes(line)
  // a: the first space, b: the second one (or the end of the line)
  any a : int
  any b : int
  assume firstat(s, 32, 0, a) && firstat(s, 32, min(a + 1, len(s)), b)
  run req, err = ws.httpParseRequestLine(line)
  assert "a rejected line is a malformed request": err != nil ==> err == ws.ErrMalformedRequest
  if b < len(s) {
    assert "method": bytes(req.method) == sub(s, 0, a)
    assert "uri": bytes(req.uri) == sub(s, a + 1, b)
    any d : int
    assume firstat(s, 46, min(b + 6, len(s)), d)
    if d - b - 6 <= 18 && len(s) - d - 1 <= 18 {
      assert "accepted exactly with a well-formed version": err == nil <==> version(s, b + 1, d)
      assert "major version": err == nil ==> req.major == numval(s, b + 6, d)
      assert "minor version": err == nil ==> req.minor == numval(s, d + 1, len(s))
    }
  } else {
    assert "a line without two spaces is rejected": err != nil
  }
  assert "the line is left as it is": bytes(line) == s
}

proof C19_version {
  any v : []byte
  assume given(v)
  let s = bytes(v)
  any d : int
  assume firstat(s, 46, min(5, len(s)), d)
  run major, minor, ok = ws.httpParseVersion(v)
  if d - 5 <= 18 && len(s) - d - 1 <= 18 {
    assert "accepted exactly in the form HTTP/digits.digits": ok <==> version(s, 0, d)
    assert "major version": ok ==> major == numval(s, 5, d)
    assert "minor version": ok ==> minor == numval(s, d + 1, len(s))
  }
}

proof C19_split3 {
  any line : []byte
  assume given(line)
  any sep : byte
  let s = bytes(line)
  any a : int
  any b : int
  assume firstat(s, sep, 0, a) && firstat(s, sep, min(a + 1, len(s)), b)
  run b1, b2, b3 = ws.bsplit3(line, sep)
  assert "split at the first two separators": b < len(s) ==> bytes(b1) == sub(s, 0, a) && bytes(b2) == sub(s, a + 1, b) && bytes(b3) == sub(s, b + 1, len(s))
  assert "not split without them": b == len(s) ==> bytes(b1) == s && len(b2) == 0 && len(b3) == 0
}

proof C19_header {
  any line : []byte
  assume given(line)
  let s = bytes(line)
  any c : int
  assume firstat(s, 58, 0, c)
  run k, v, ok = ws.httpParseHeaderLine(line)
  assert "accepted exactly with a colon": ok <==> c < len(s)
  if ok {
    // the key is s[ka:ke], the value s[va:ve]
    any ka : int
    any va : int
    if ref(k) == ref(line) {
      assume ka == off(k) - off(line)
      assert "the key is trimmed": trimmed(s, 0, c, ka, ka + len(k))
    } else {
      any ke : int
      assume trimmed(s, 0, c, ka, ke)
      assert "the key is trimmed": len(k) == ke - ka
    }
    if ref(v) == ref(line) {
      assume va == off(v) - off(line)
      let ve = va + len(v)
      assert "the value is after the colon": c + 1 <= va && va <= ve && ve <= len(s) && (va == ve ==> va == len(s))
      assert "the value has no blank before it": forall j in c+1..va : blank(s[j])
      assert "the value has no blank after it": forall j in ve..len(s) : blank(s[j])
      assert "the value is trimmed": va < ve ==> !blank(s[va]) && !blank(s[ve-1])
    } else {
      any ve : int
      assume trimmed(s, c + 1, len(s), va, ve)
      assert "the value is trimmed": len(v) == ve - va
    }
    assert "the key is put in canonical case": forall j in 0..len(k) : k[j] == canon(sub(s, ka, ka + len(k)), j)
    assert "the value is unchanged": bytes(v) == sub(s, va, va + len(v))
  }
}

proof C19_canon {
  any k : []byte
  assume given(k)
  let s = bytes(k)
  run ws.canonicalizeHeaderKey(k)
  assert "every letter of the wrong case is changed, and nothing else": forall j in 0..len(k) : k[j] == canon(s, j)
}

proof C19_trim {
  any b : []byte
  assume given(b)
  let s = bytes(b)
  any i : int
  any j : int
  assume trimmed(s, 0, len(s), i, j)
  run r = ws.btrim(b)
  assert "surrounding blanks are removed": bytes(r) == sub(s, i, j)
  assert "the bytes are left as they are": bytes(b) == s
}
