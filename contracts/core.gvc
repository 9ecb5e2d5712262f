// One connection on its event loop: the operating system, the user's callbacks and the invariant of an open connection.
// Included by C01-C04 and C24; the file that includes it says which of the checks made inside the models it decides.

ghost g_c int         // the connection
ghost g_fd int        // its descriptor
ghost g_ep int        // the loop's epoll descriptor
ghost g_open bool     // the descriptor is open
ghost g_reg bool      // and registered with epoll
ghost g_mask int      // with this interest
ghost g_in seq        // input not consumed when the step began, followed by what was read in it
ghost g_cons int      // how much of it the decoder consumed
ghost g_acc seq       // output pending when the step began, followed by what was accepted in it
ghost g_sent seq      // what the socket took in the step
ghost g_nclose int    // descriptor closes
ghost g_nonclose int  // OnClose calls
ghost g_nmsg int      // OnMessage calls
ghost g_down bool     // something happened that has to tear the connection down
ghost g_pooled bmap   // ring buffers given back to the pool
ghost g_task int      // the last function queued
ghost g_ntask int
ghost g_loopq int
ghost g_nread int     // reads and writes of the socket in the step
ghost g_nwrite int
ghost g_due bool      // the decoder returned a message that has not been delivered yet
ghost g_more bool     // the decoder has not been asked again since it returned a message
ghost g_due_t int     // that message
ghost g_due_c int
ghost g_due_d int
ghost g_due_n int
ghost g_reply bool    // a callback returned a reply that has not been packed yet
ghost g_reply_t int   // that reply
ghost g_reply_d int

assumption "unix.Read, Write, Close, EpollCtl behave as their manual pages say: a write takes a prefix of the data or fails, a read stores at most len(p) bytes, modifying the interest of a registered descriptor succeeds"
assumption "user callbacks and protocols use a connection only through its exported methods, and a decoder consumes a prefix of the buffer it is given and does not write to it"
assumption "the logger has no effect on the state of a connection"

include "ring.gvc"

// memory of the two buffers and the packet buffer never overlaps
spec apart(c) = ref(c.inBuffer) != ref(c.outBuffer) && ref(c.inBuffer) != ref(c.buffer) && ref(c.outBuffer) != ref(c.buffer) && ref(c.inBuffer.buf) != ref(c.outBuffer.buf) && ref(c.inBuffer.buf) != ref(c.loop.packet) && ref(c.outBuffer.buf) != ref(c.loop.packet) && ref(c.inBuffer.buf) != 0 && ref(c.outBuffer.buf) != 0
// interest masks: EPOLLIN is bit 0, EPOLLOUT bit 2; one-shot and edge-triggered interest (bits 30, 31) would lose readiness
spec reads(m) = m % 2 == 1
spec writes(m) = (m / 4) % 2 == 1
spec level(m) = 0 <= m && m < pow2(30)
spec conn_open(c) = c.connected.b == 1

model log.Logger.Log(l, v) {
}
model log.Logger.Logf(l, f, v) {
}

model unix.Read(fd, p)(n, err) {
  assert "descriptor, registry and callbacks are used on the loop only": on09 ==> g_inloop
  assert "reads its own descriptor": on02 ==> fd == g_fd
  assert "nothing is read after teardown": on03 ==> g_open
  let c = cast(*gev.Connection, g_c)
  assert "no input is read while output is pending": on04 ==> c.outBuffer.isEmpty
  g_nread = g_nread + 1
  choose {
    any n0 : int
    assume 1 <= n0 && n0 <= len(p)
    havoc bytes(p)
    g_in = cat(g_in, bytes(p[0:n0]))
    return n0, nil
  } or {
    g_down = true
    return 0, nil
  } or {
    return -1, conv(error, unix.EAGAIN)
  } or {
    any e : error
    assume e != nil && e != conv(error, unix.EAGAIN)
    g_down = true
    return -1, e
  }
}

model unix.Write(fd, p)(n, err) {
  assert "descriptor, registry and callbacks are used on the loop only": on09 ==> g_inloop
  assert "writes to its own descriptor": (on01 ==> fd == g_fd) && (on03 ==> fd == g_fd)
  assert "nothing is written after teardown": on03 ==> g_open
  g_nwrite = g_nwrite + 1
  choose {
    any n0 : int
    assume 0 <= n0 && n0 <= len(p)
    g_sent = cat(g_sent, bytes(p[0:n0]))
    return n0, nil
  } or {
    return -1, conv(error, unix.EAGAIN)
  } or {
    any e : error
    assume e != nil && e != conv(error, unix.EAGAIN)
    g_down = true
    return -1, e
  }
}

model unix.EpollCtl(epfd, op, fd, ev)(err) {
  assert "descriptor, registry and callbacks are used on the loop only": on09 ==> g_inloop
  assert "the loop's own poller is told": (on03 || on04) ==> epfd == g_ep && fd == g_fd
  if op == unix.EPOLL_CTL_DEL {
    assert "a registered descriptor is deregistered, once": on03 ==> g_reg && g_open
    g_reg = false
    any e : error
    return e
  }
  assert "the interest of the registered descriptor is modified": (on03 || on04) ==> op == unix.EPOLL_CTL_MOD && g_reg && g_open && ev != nil && ev.Fd == g_fd
  g_mask = ev.Events
  return nil
}

model unix.Close(fd)(err) {
  assert "descriptor, registry and callbacks are used on the loop only": on09 ==> g_inloop
  assert "its own descriptor is closed": on03 ==> fd == g_fd
  assert "the descriptor is deregistered before it is closed": on03 ==> !g_reg
  let c = cast(*gev.Connection, g_c)
  assert "the loop no longer knows the descriptor when it is closed": on03 ==> !has(c.loop.sockets, fd)
  assert "the descriptor is closed once": on03 ==> g_open && g_nclose == 0
  g_open = false
  g_nclose = g_nclose + 1
  any e : error
  return e
}

model unix.Shutdown(fd, how)(err) {
  assert "a closed descriptor is not shut down": on03 ==> g_open && fd == g_fd
  any e : error
  return e
}

model ringbuffer.PutInPool(b) {
  assert "descriptor, registry and callbacks are used on the loop only": on09 ==> g_inloop
  assert "a buffer is given back to the pool once": on03 ==> !g_pooled[ref(b)]
  g_pooled[ref(b)] = true
}

model gev.CallBack.OnClose(cb, c) {
  assert "descriptor, registry and callbacks are used on the loop only": on09 ==> g_inloop
  assert "OnClose is called with the connection": on03 ==> ref(c) == g_c
  assert "OnClose is called at most once": on03 ==> g_nonclose == 0
  assert "Connected is false when OnClose runs": on03 ==> !conn_open(c)
  g_nonclose = g_nonclose + 1
}

model gev.CallBack.OnMessage(cb, c, ctx, data)(r) {
  assert "no message is delivered after teardown": on03 ==> ref(c) == g_c && conn_open(c) && g_nonclose == 0
  assert "what is delivered is the message the decoder returned, once": on02 ==> g_due && tag(ctx) == g_due_t && ref(ctx) == g_due_c && ref(data) == g_due_d && len(data) == g_due_n
  assert "a reply is packed before the next message is delivered": on01 ==> !g_reply
  g_nmsg = g_nmsg + 1
  g_due = false
  any r0 : any
  g_reply = r0 != nil
  g_reply_t = tag(r0)
  g_reply_d = ref(r0)
  return r0
}

// options and completion callbacks are the caller's functions
model "dyn:func(*gev.ConnectionOptions)"(f, o) {
  havoc o.*
}
ghost g_inloop bool   // the code runs on the connection's loop
ghost g_npack int     // calls of Packet
ghost g_pack_t int    // the last one packed this
ghost g_pack_d int
ghost g_nfin int      // completion callbacks run
ghost g_fin int       // the last one
ghost g_fin_t int     // with this data
ghost g_fin_d int
model "dyn:func(any)"(f, d) {
  let c = cast(*gev.Connection, g_c)
  assert "the completion callback runs on the loop": on09 ==> g_inloop
  assert "the completion callback runs after the data was packed and sent": on09 ==> g_npack == 1 && (conn_open(c) ==> len(g_acc) == len(g_sent) + rlen(c.outBuffer))
  g_nfin = g_nfin + 1
  g_fin = ref(f)
  g_fin_t = tag(d)
  g_fin_d = ref(d)
}

model gev.Protocol.Packet(p, c, data)(bs) {
  let cc = cast(*gev.Connection, g_c)
  assert "output is packed for its own connection": (on01 || on09) ==> ref(c) == g_c
  assert "data is packed on the loop": on09 ==> g_inloop
  assert "a reply is packed as the callback returned it": on01 && g_reply ==> tag(data) == g_reply_t && ref(data) == g_reply_d
  g_reply = false
  g_npack = g_npack + 1
  g_pack_t = tag(data)
  g_pack_d = ref(data)
  any b : []byte
  assume ref(b) != ref(cc.outBuffer.buf) || ref(b) == 0
  g_acc = cat(g_acc, bytes(b))
  return b
}

model gev.Protocol.UnPacket(p, c, b)(ctx, data) {
  assert "the decoder works for its own connection": on02 ==> ref(c) == g_c
  assert "the decoder sees all bytes not consumed yet, and only those": on02 ==> rlen(b) == len(g_in) - g_cons
  assert "in the order they were received, unchanged": on02 ==> (forall k in 0..rlen(b) : rat(b, k) == g_in[g_cons + k])
  assert "a decoded message is delivered before the next one is decoded": on02 ==> !g_due
  // it consumes the first k bytes, in whatever way
  let n0 = rlen(b)
  any k : int
  any z : int
  assume 0 <= k && k <= n0 && 0 <= z && (b.size == 0 ? z == 0 : z < b.size)
  let r1 = k == n0 ? z : (b.r + k < b.size ? b.r + k : b.r + k - b.size)
  let w1 = k == n0 ? z : b.w
  let e1 = k == n0
  b.r = r1
  b.vr = r1
  b.w = w1
  b.isEmpty = e1
  g_cons = g_cons + k
  any x : any
  any d : []byte
  g_due = x != nil || len(d) != 0
  g_more = g_due
  g_due_t = tag(x)
  g_due_c = ref(x)
  g_due_d = ref(d)
  g_due_n = len(d)
  return x, d
}

model eventloop.EventLoop.QueueInLoop(l, f) {
  g_task = ref(f)
  g_ntask = g_ntask + 1
  g_loopq = ref(l)
}

ghost atomic.Value.$set bool
ghost atomic.Value.$ref int
model atomic.Value.Store(v, x) {
  assert "only timers are stored": istype(*timingwheel.Timer, x)
  v.$set = true
  v.$ref = ref(x)
}
model atomic.Value.Load(v)(x) {
  if v.$set {
    return conv(any, cast(*timingwheel.Timer, v.$ref))
  }
  return nil
}
ghost g_nstop int
model timingwheel.Timer.Stop(t)(b) {
  g_nstop = g_nstop + 1
  any b0 : bool
  return b0
}
ghost g_narm int
ghost g_delay int
ghost g_timerf int
model timingwheel.TimingWheel.AfterFunc(tw, d, f)(t) {
  g_narm = g_narm + 1
  g_delay = d
  g_timerf = ref(f)
  new t0 : timingwheel.Timer
  return t0
}

// time, in nanoseconds since the epoch, kept in the ext field of time.Time; it does not run backwards
ghost g_now int
spec sane(t) = 0 <= t && t < pow2(62)
model time.Now()(t) {
  any n : int64
  assume g_now <= n && sane(n)
  g_now = n
  new t0 : time.Time
  t0.ext = n
  return *t0
}
model time.Unix(s, ns)(t) {
  new t0 : time.Time
  assert "a time in range is asked for": 0 <= s && s < pow2(33) && 0 <= ns && ns < pow2(62)
  t0.ext = s * 1000000000 + ns
  return *t0
}
model time.UnixMilli(ms)(t) {
  new t0 : time.Time
  assert "a time in range is asked for": 0 <= ms && ms < pow2(43)
  t0.ext = ms * 1000000
  return *t0
}
model time.Time.Unix(t)(s) {
  return t.ext / 1000000000
}
model time.Time.UnixNano(t)(s) {
  return t.ext
}
model time.Time.UnixMilli(t)(s) {
  return t.ext / 1000000
}
model time.Time.Sub(t, u)(d) {
  return t.ext - u.ext
}
model time.Time.Add(t, d)(u) {
  new t0 : time.Time
  t0.ext = t.ext + d
  return *t0
}
model time.Time.Before(t, u)(b) {
  return t.ext < u.ext
}
model time.Time.After(t, u)(b) {
  return t.ext > u.ext
}
model time.Time.Equal(t, u)(b) {
  return t.ext == u.ext
}
model time.Time.UTC(t)(u) {
  return t
}
model time.Since(t)(d) {
  call n = time.Now()
  return n.ext - t.ext
}
model time.Until(t)(d) {
  call n = time.Now()
  return t.ext - n.ext
}

// the pool gives out empty buffers nobody else uses
model ringbuffer.GetFromPool()(b0) {
  any n : int
  assume 0 <= n && n < pow2(40)
  run b = ringbuffer.New(n)
  return b
}

// a loop with an unlimited registry
model verif.loop()(l0) {
  obj l : eventloop.EventLoop
  obj p : poller.Poller
  l.poll = p
  g_ep = p.fd
  assume l.sockets != nil && ref(l.packet) != 0 && len(l.packet) > 0
  assume log.logger != nil
  return l
}

// a new connection, not yet registered
model verif.created(tw, idle)(c0) {
  call l = verif.loop()
  any fd : int
  assume 0 <= fd && fd < pow2(31)
  sym sa : unix.Sockaddr
  assume ref(sa) != 0
  sym pr : gev.Protocol
  sym cb : gev.CallBack
  assume pr != nil && cb != nil && (idle > 0 ==> tw != nil)
  g_narm = 0
  g_ntask = 0
  g_nclose = 0
  g_nonclose = 0
  g_nfin = 0
  g_npack = 0
  g_down = false
  g_inloop = true
  run c = gev.NewConnection(fd, l, sa, pr, tw, idle, cb)
  g_c = ref(c)
  g_fd = fd
  assert "a new connection has its descriptor, loop and settings": c.fd == fd && c.loop == l && c.protocol == pr && c.callBack == cb && c.idleTime == idle && conn_open(c)
  g_open = true
  g_reg = true
  g_in = empty
  g_acc = empty
  g_sent = empty
  g_cons = 0
  assume !g_pooled[ref(c.inBuffer)] && !g_pooled[ref(c.outBuffer)] && !g_pooled[ref(c.buffer)]
  assume has(l.sockets, fd)
  return c
}

// an arbitrary open connection between two steps
model verif.open()(c0) {
  obj c : gev.Connection
  obj ib : ringbuffer.RingBuffer
  obj ob : ringbuffer.RingBuffer
  obj pb : ringbuffer.RingBuffer
  obj l : eventloop.EventLoop
  obj p : poller.Poller
  c.inBuffer = ib
  c.outBuffer = ob
  c.buffer = pb
  c.loop = l
  l.poll = p
  c.connected.b = 1
  g_c = ref(c)
  g_fd = c.fd
  g_ep = p.fd
  assume c.inBufferLen.v == rlen(ib) && c.outBufferLen.v == rlen(ob)
  assume log.logger != nil
  assume c.fd >= 0 && c.fd < pow2(31) && c.callBack != nil && c.protocol != nil && l.sockets != nil
  assume ring(ib) && ring(ob)
  assume ref(ib.buf) != ref(ob.buf) && ref(ib.buf) != ref(l.packet) && ref(ob.buf) != ref(l.packet)
  assume ref(ib.buf) != 0 && ref(ob.buf) != 0 && ref(l.packet) != 0
  g_open = true
  g_reg = true
  any m0 : uint32
  assume reads(m0) && level(m0) && (writes(m0) <==> rlen(ob) > 0)
  g_mask = m0
  g_in = content(ib)
  g_cons = 0
  g_acc = content(ob)
  g_sent = empty
  g_nclose = 0
  g_nonclose = 0
  g_nmsg = 0
  g_nread = 0
  g_nwrite = 0
  g_due = false
  g_more = false
  g_reply = false
  g_down = false
  g_ntask = 0
  g_nfin = 0
  g_npack = 0
  g_inloop = true
  assume !g_pooled[ref(ib)] && !g_pooled[ref(ob)] && !g_pooled[ref(pb)]
  assume has(l.sockets, c.fd)
  return c
}

// the read loop: its state may live in parameters, local variables, SSA values or fields of the connection
spec samemem(s, e_ref, e_off, e_cap) = ref(s) == e_ref ? off(s) == e_off && cap(s) == e_cap : isnew(s)
loop "*" {
  split ref(*$v) == entry(ref(*$v))
  split ref($p) == entry(ref($p))
  invariant ring($v)
  invariant ring($v.buffer)
  invariant ring($v.inBuffer)
  invariant ring(*$v)
  invariant ring($p)
  invariant samemem(*$v, entry(ref(*$v)), entry(off(*$v)), entry(cap(*$v)))
  invariant samemem($p, entry(ref($p)), entry(off($p)), entry(cap($p)))
}
