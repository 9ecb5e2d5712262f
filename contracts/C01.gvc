// C01: outbound bytes reach the socket in order, none lost or duplicated.
spec on01 = true
spec on02 = false
spec on03 = false
spec on04 = false
spec on09 = false
include "core.gvc"

loop "*" {
  invariant bytes(*$v) == g_acc
  invariant bytes($p) == g_acc
  invariant !g_reply
}

// One step of an open connection: what was pending plus what was accepted is what the socket took plus what is pending.
proof C01_event shards 8 {
  call c = verif.open()
  sym ev : poller.Event
  let pending = rlen(c.outBuffer) > 0
  run gev.Connection.HandleEvent(c, c.fd, ev)
  if conn_open(c) {
    assert "the write buffer is well formed and the buffers are separate": ring(c.outBuffer) && apart(c)
    assert "no accepted byte is lost, duplicated, reordered or altered": g_acc == cat(g_sent, content(c.outBuffer))
    assert "every reply is packed": !g_reply
    assert "pending output is written when the socket takes it": pending && ev % (2 * poller.EventWrite) >= poller.EventWrite ==> g_nwrite >= 1
  }
}

proof C01_send {
  call c = verif.open()
  sym data : any
  sym opts : []gev.ConnectionOption
  assume (forall k in 0..len(opts) : opts[k] != nil)
  run err = gev.Connection.Send(c, data, opts)
  let task = cast(func, g_task)
  run task()
  if conn_open(c) {
    assert "the write buffer is well formed and the buffers are separate": ring(c.outBuffer) && apart(c)
    assert "no accepted byte is lost, duplicated, reordered or altered": g_acc == cat(g_sent, content(c.outBuffer))
  }
}

// the invariant holds when a connection is created
proof C01_new {
  any tw : *timingwheel.TimingWheel
  any idle : time.Duration
  any t0 : int64
  assume sane(t0)
  g_now = t0
  call c = verif.created(tw, idle)
  assert "the write buffer is well formed and empty": ring(c.outBuffer) && rlen(c.outBuffer) == 0
  assert "the buffers are separate": apart(c)
}
