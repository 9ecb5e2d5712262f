// C03: a connection is torn down exactly once and is silent afterwards.
spec on01 = false
spec on02 = false
spec on03 = true
spec on04 = false
spec on09 = false
include "core.gvc"

guard ringbuffer.RingBuffer.buf(p) requires !g_pooled[ref(p)]
guard ringbuffer.RingBuffer.size(p) requires !g_pooled[ref(p)]
guard ringbuffer.RingBuffer.r(p) requires !g_pooled[ref(p)]
guard ringbuffer.RingBuffer.w(p) requires !g_pooled[ref(p)]
guard ringbuffer.RingBuffer.isEmpty(p) requires !g_pooled[ref(p)]

spec intact(c) = conn_open(c) && g_open && g_reg && g_nclose == 0 && g_nonclose == 0 && !g_pooled[ref(c.inBuffer)] && !g_pooled[ref(c.outBuffer)]
spec torn(c) = !conn_open(c) && !g_open && !g_reg && g_nclose == 1 && g_nonclose == 1

spec hangup(ev) = (ev / poller.EventErr) % 2 == 1

// --- an open connection: every step leaves it open and intact or tears it down completely, once
proof C03_event shards 8 {
  call c = verif.open()
  sym ev : poller.Event
  run gev.Connection.HandleEvent(c, c.fd, ev)
  assert "open and intact, or torn down once": intact(c) || torn(c)
  run b = gev.Connection.Connected(c)
  assert "Connected tells whether the connection is up": b == conn_open(c)
  assert "end of stream and hard errors tear the connection down, a would-block result does not": hangup(ev) || (g_down <==> torn(c))
  assert "a hang-up tears the connection down": hangup(ev) ==> torn(c)
}

proof C03_send {
  call c = verif.open()
  sym data : any
  sym opts : []gev.ConnectionOption
  assume (forall k in 0..len(opts) : opts[k] != nil)
  run err = gev.Connection.Send(c, data, opts)
  assert "Send accepts data while the connection is up": err == nil && intact(c)
  let task = cast(func, g_task)
  run task()
  assert "open and intact, or torn down once": intact(c) || torn(c)
  assert "hard errors tear the connection down, a would-block result does not": g_down <==> torn(c)
}

proof C03_close {
  call c = verif.open()
  run err = gev.Connection.Close(c)
  assert "Close is accepted while the connection is up": err == nil && intact(c)
  let task = cast(func, g_task)
  run task()
  assert "torn down once": torn(c)
}

proof C03_shutdown {
  call c = verif.open()
  run err = gev.Connection.ShutdownWrite(c)
  assert "shutting down the write side does not tear the connection down": intact(c)
}

// --- a connection that has been torn down: nothing touches its descriptor or its buffers any more (checked in the models
// and guards), no matter what was queued before or is called afterwards
model verif.dead(c) {
  c.connected.b = 0
  g_open = false
  g_reg = false
  g_nclose = 1
  g_nonclose = 1
  g_pooled[ref(c.inBuffer)] = true
  g_pooled[ref(c.outBuffer)] = true
  let l = c.loop
  havoc l.sockets   // the descriptor may have been given to another connection
  assume l.sockets != nil
}

proof C03_dead_send_task {
  call c = verif.open()
  sym data : any
  sym opts : []gev.ConnectionOption
  assume (forall k in 0..len(opts) : opts[k] != nil)
  run err = gev.Connection.Send(c, data, opts)
  call verif.dead(c)
  let task = cast(func, g_task)
  run task()
  assert "nothing happens": torn(c) && g_nmsg == 0
}

proof C03_dead_close_task {
  call c = verif.open()
  run err = gev.Connection.Close(c)
  call verif.dead(c)
  let task = cast(func, g_task)
  run task()
  assert "nothing happens": torn(c) && g_nmsg == 0
}

proof C03_dead_calls {
  call c = verif.open()
  call verif.dead(c)
  g_ntask = 0
  sym data : any
  sym opts : []gev.ConnectionOption
  assume (forall k in 0..len(opts) : opts[k] != nil)
  choose {
    run err = gev.Connection.Send(c, data, opts)
    assert "Send is refused": err == gev.ErrConnectionClosed
  } or {
    run err = gev.Connection.Close(c)
    assert "Close is refused": err == gev.ErrConnectionClosed
  } or {
    run err = gev.Connection.ShutdownWrite(c)
  } or {
    run b = gev.Connection.Connected(c)
    assert "Connected is false": !b
  } or {
    run n = gev.Connection.ReadBufferLength(c)
  } or {
    run n = gev.Connection.WriteBufferLength(c)
  } or {
    run s = gev.Connection.PeerAddr(c)
  }
  assert "nothing happens": torn(c) && g_ntask == 0
}
