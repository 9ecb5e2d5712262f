// C09: Send and Close only enqueue; connection state is touched on its loop.
spec on01 = false
spec on02 = false
spec on03 = false
spec on04 = false
spec on09 = true
include "core.gvc"

guard ringbuffer.RingBuffer.buf(p) requires g_inloop
guard ringbuffer.RingBuffer.size(p) requires g_inloop
guard ringbuffer.RingBuffer.r(p) requires g_inloop
guard ringbuffer.RingBuffer.w(p) requires g_inloop
guard ringbuffer.RingBuffer.isEmpty(p) requires g_inloop
guard "map:map[int]eventloop.Socket"(m) requires g_inloop

// --- an accepted call enqueues exactly one task on the connection's own loop; a rejected one none
proof C09_send {
  call c = verif.open()
  g_inloop = false
  any up : int32
  assume up == 0 || up == 1
  c.connected.b = up
  sym data : any
  sym opts : []gev.ConnectionOption
  assume (forall k in 0..len(opts) : opts[k] != nil)
  run err = gev.Connection.Send(c, data, opts)
  assert "an open connection accepts, a closed one refuses": up == 1 ? err == nil : err == gev.ErrConnectionClosed
  assert "one task is queued for an accepted call, none for a refused one": g_ntask == up
  assert "on the connection's own loop": up == 1 ==> g_loopq == ref(c.loop)
  assert "nothing else happens": g_npack == 0 && g_nfin == 0 && c.connected.b == up
}

proof C09_close {
  call c = verif.open()
  g_inloop = false
  any up : int32
  assume up == 0 || up == 1
  c.connected.b = up
  run err = gev.Connection.Close(c)
  assert "an open connection accepts, a closed one refuses": up == 1 ? err == nil : err == gev.ErrConnectionClosed
  assert "one task is queued for an accepted call, none for a refused one": g_ntask == up
  assert "on the connection's own loop": up == 1 ==> g_loopq == ref(c.loop)
  assert "nothing else happens": c.connected.b == up
}

// --- the idle timer, on the timing wheel's goroutine
proof C09_timer {
  any tw : *timingwheel.TimingWheel
  any idle : time.Duration
  assume idle > 0
  any t0 : int64
  assume sane(t0)
  g_now = t0
  call c = verif.created(tw, idle)
  let f = cast(func, g_timerf)
  any act : int64
  assume 0 <= act && act < pow2(32)
  c.activeTime.v = act
  g_inloop = false
  any up : int32
  assume up == 0 || up == 1
  c.connected.b = up
  run f()
  assert "the timer queues at most one task, on the connection's own loop, none when it is closed": g_ntask <= up && (g_ntask == 1 ==> g_loopq == ref(c.loop))
  assert "nothing else happens": c.connected.b == up
  if g_ntask == 1 {
    g_inloop = true
    let task = cast(func, g_task)
    run task()
    assert "the task it queues tears the connection down": !conn_open(c) && g_nonclose == 1 && g_nclose == 1
  }
}

// --- the task queued by Send
proof C09_send_task {
  call c = verif.open()
  g_inloop = false
  sym data : any
  any f : gev.SendInLoopFunc
  assume f != nil
  run opt = gev.SendInLoop(f)
  sym opts : []gev.ConnectionOption
  any with : bool
  if with {
    assume cap(opts) >= 1
    opts[0] = opt
    run err = gev.Connection.Send(c, data, opts[0:1])
  } else {
    run err = gev.Connection.Send(c, data, opts[0:0])
  }
  let task = cast(func, g_task)
  g_inloop = true
  any up : int32
  assume up == 0 || up == 1
  c.connected.b = up
  run task()
  if up == 1 {
    assert "the data is packed once": g_npack == 1 && g_pack_t == tag(data) && g_pack_d == ref(data)
    assert "and sent": conn_open(c) ==> len(g_acc) == len(g_sent) + rlen(c.outBuffer)
    assert "then the completion callback runs exactly once, with that data": with ? (g_nfin == 1 && g_fin == ref(f) && g_fin_t == tag(data) && g_fin_d == ref(data)) : g_nfin == 0
  } else {
    assert "a closed connection: the task does nothing": g_npack == 0 && g_nfin == 0 && g_sent == empty && g_nclose == 0 && g_nonclose == 0
  }
}

// --- the task queued by Close
proof C09_close_task {
  call c = verif.open()
  g_inloop = false
  run err = gev.Connection.Close(c)
  let task = cast(func, g_task)
  g_inloop = true
  run task()
  assert "the task tears the connection down": !conn_open(c) && g_nonclose == 1 && g_nclose == 1
}
