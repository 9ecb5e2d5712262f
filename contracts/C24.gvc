// C24: reported buffer lengths equal the real backlog.
spec on01 = false
spec on02 = false
spec on03 = false
spec on04 = false
spec on09 = false
include "core.gvc"

loop "*" {
  invariant entry(g_cons) <= g_cons && g_cons <= len(g_in)
  invariant len(*$v) == len(g_acc)
  invariant len($p) == len(g_acc)
  invariant rlen($v) == len(g_in) - g_cons
  invariant !$v.isEmpty ==> $v.w == entry($v.w)
  invariant rlen($v.buffer) == len(g_in) - g_cons
  invariant !$v.buffer.isEmpty ==> $v.buffer.w == entry($v.buffer.w)
  invariant rlen($v.inBuffer) == len(g_in) - g_cons
  invariant !$v.inBuffer.isEmpty ==> $v.inBuffer.w == entry($v.inBuffer.w)
  invariant rlen($p) == len(g_in) - g_cons
  invariant !$p.isEmpty ==> $p.w == entry($p.w)
}

proof C24_event shards 8 {
  call c = verif.open()
  sym ev : poller.Event
  run gev.Connection.HandleEvent(c, c.fd, ev)
  if conn_open(c) {
    run rn = gev.Connection.ReadBufferLength(c)
    run wn = gev.Connection.WriteBufferLength(c)
    assert "ReadBufferLength counts the bytes received and not consumed": rn == len(g_in) - g_cons
    assert "WriteBufferLength counts the bytes accepted and not given to the socket": wn == len(g_acc) - len(g_sent)
  }
}

proof C24_send {
  call c = verif.open()
  sym data : any
  sym opts : []gev.ConnectionOption
  assume (forall k in 0..len(opts) : opts[k] != nil)
  run err = gev.Connection.Send(c, data, opts)
  let task = cast(func, g_task)
  run task()
  if conn_open(c) {
    run rn = gev.Connection.ReadBufferLength(c)
    run wn = gev.Connection.WriteBufferLength(c)
    assert "ReadBufferLength counts the bytes received and not consumed": rn == len(g_in) - g_cons
    assert "WriteBufferLength counts the bytes accepted and not given to the socket": wn == len(g_acc) - len(g_sent)
  }
}

// the invariant holds when a connection is created
proof C24_new {
  any tw : *timingwheel.TimingWheel
  any idle : time.Duration
  any t0 : int64
  assume sane(t0)
  g_now = t0
  call c = verif.created(tw, idle)
  assert "nothing is reported": c.inBufferLen.v == 0 && c.outBufferLen.v == 0 && rlen(c.inBuffer) == 0 && rlen(c.outBuffer) == 0
}
