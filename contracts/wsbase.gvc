// What surrounds the WebSocket plugin's code: logger, locks, byte pool and handshake are modelled.

assumption "the byte slices handed out by the pool (pbytes) are used by nobody else until they are given back"
assumption "the logger has no effect on a connection"
model log.Logger.Log(l, v) {
}
model log.Logger.Logf(l, f, v) {
}
model sync.RWMutex.Lock(m) {
}
model sync.RWMutex.Unlock(m) {
}
model sync.RWMutex.RLock(m) {
}
model sync.RWMutex.RUnlock(m) {
}
model sync.Mutex.Lock(m) {
}
model sync.Mutex.Unlock(m) {
}

ghost g_pool int      // memory handed out by the pool
model pbytes.Get(n, c)(b0) {
  any b : []byte
  assume len(b) == n && cap(b) >= c && cap(b) < pow2(40) && off(b) == 0 && ref(b) == g_pool
  return b
}
model pbytes.GetCap(c)(b0) {
  any b : []byte
  assume len(b) == 0 && cap(b) >= c && cap(b) < pow2(40) && off(b) == 0 && ref(b) == g_pool
  return b
}
model pbytes.GetLen(n)(b0) {
  any b : []byte
  assume len(b) == n && cap(b) < pow2(40) && off(b) == 0 && ref(b) == g_pool
  return b
}
ghost g_put int       // slices given back
model pbytes.Put(b) {
  assert "only memory of the pool is given back": ref(b) == g_pool
  g_put = g_put + 1
}

ghost g_upok bool     // the handshake succeeds
ghost g_nup int
ghost g_upc int       // for this connection
ghost g_upb int       // with this buffer
model ws.Upgrader.Upgrade(u, c, b)(out, hs, err) {
  g_nup = g_nup + 1
  g_upc = ref(c)
  g_upb = ref(b)
  any r : []byte
  new h : ws.Handshake
  if g_upok {
    return r, *h, nil
  }
  any e : error
  assume e != nil
  return r, *h, e
}
