// C02: received bytes are presented to the decoder in order, none lost.
spec on01 = false
spec on02 = true
spec on03 = false
spec on04 = false
spec on09 = false
include "core.gvc"

spec moved(b, d) = entry(b.r) + d < b.size ? entry(b.r) + d : entry(b.r) + d - b.size
loop "*" {
  invariant g_due == g_more
  invariant !g_due
  invariant g_due == (g_due_t != 0 || g_due_n != 0)
  invariant tag($p) == g_due_t
  invariant ref($p) == g_due_c
  invariant ref($p) == g_due_d
  invariant len($p) == g_due_n
  invariant tag(*$v) == g_due_t
  invariant ref(*$v) == g_due_c
  invariant ref(*$v) == g_due_d
  invariant len(*$v) == g_due_n
  invariant entry(g_cons) <= g_cons && g_cons <= len(g_in)
  invariant bytes($v.buf) == entry(bytes($v.buf))
  invariant rlen($v) == len(g_in) - g_cons
  invariant !$v.isEmpty ==> $v.r == moved($v, g_cons - entry(g_cons)) && $v.w == entry($v.w)
  invariant bytes($v.buffer.buf) == entry(bytes($v.buffer.buf))
  invariant rlen($v.buffer) == len(g_in) - g_cons
  invariant !$v.buffer.isEmpty ==> $v.buffer.r == moved($v.buffer, g_cons - entry(g_cons)) && $v.buffer.w == entry($v.buffer.w)
  invariant bytes($v.inBuffer.buf) == entry(bytes($v.inBuffer.buf))
  invariant rlen($v.inBuffer) == len(g_in) - g_cons
  invariant !$v.inBuffer.isEmpty ==> $v.inBuffer.r == moved($v.inBuffer, g_cons - entry(g_cons)) && $v.inBuffer.w == entry($v.inBuffer.w)
  invariant bytes((*$v).buf) == entry(bytes((*$v).buf))
  invariant rlen(*$v) == len(g_in) - g_cons
  invariant !(*$v).isEmpty ==> (*$v).r == moved(*$v, g_cons - entry(g_cons)) && (*$v).w == entry((*$v).w)
  invariant bytes($p.buf) == entry(bytes($p.buf))
  invariant rlen($p) == len(g_in) - g_cons
  invariant !$p.isEmpty ==> $p.r == moved($p, g_cons - entry(g_cons)) && $p.w == entry($p.w)
}

// One step of an open connection: what the decoder has not consumed is kept, in order, for its next call.
proof C02_event shards 8 {
  call c = verif.open()
  sym ev : poller.Event
  let pending = rlen(c.outBuffer) > 0
  run gev.Connection.HandleEvent(c, c.fd, ev)
  if conn_open(c) {
    assert "the read buffer is well formed and the buffers are separate": ring(c.inBuffer) && apart(c)
    assert "unconsumed bytes are kept unchanged and in order": content(c.inBuffer) == sub(g_in, g_cons, len(g_in))
    assert "every decoded message is delivered, and the decoder is asked until it returns none": !g_due && !g_more
    assert "input is read when there is some": !pending && ev % (2 * poller.EventRead) >= poller.EventRead ==> g_nread >= 1
  }
}

proof C02_send {
  call c = verif.open()
  sym data : any
  sym opts : []gev.ConnectionOption
  assume (forall k in 0..len(opts) : opts[k] != nil)
  run err = gev.Connection.Send(c, data, opts)
  let task = cast(func, g_task)
  run task()
  if conn_open(c) {
    assert "the read buffer is well formed and the buffers are separate": ring(c.inBuffer) && apart(c)
    assert "unconsumed bytes are kept unchanged and in order": content(c.inBuffer) == g_in
  }
}

// the invariant holds when a connection is created
proof C02_new {
  any tw : *timingwheel.TimingWheel
  any idle : time.Duration
  any t0 : int64
  assume sane(t0)
  g_now = t0
  call c = verif.created(tw, idle)
  assert "the read buffer is well formed and empty": ring(c.inBuffer) && rlen(c.inBuffer) == 0
  assert "the buffers are separate": apart(c)
}
