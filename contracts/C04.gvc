// C04: write interest is subscribed exactly while output is pending.
spec on01 = false
spec on02 = false
spec on03 = false
spec on04 = true
spec on09 = false
include "core.gvc"
also "C04reg.gvc"

spec pending(c) = rlen(c.outBuffer) > 0
spec subscribed(c) = g_reg && reads(g_mask) && (writes(g_mask) <==> pending(c)) && level(g_mask)

proof C04_event shards 8 {
  call c = verif.open()
  sym ev : poller.Event
  run gev.Connection.HandleEvent(c, c.fd, ev)
  if conn_open(c) {
    assert "subscribed to reads, and to writes exactly while output is pending": subscribed(c)
  }
}

proof C04_send {
  call c = verif.open()
  sym data : any
  sym opts : []gev.ConnectionOption
  assume (forall k in 0..len(opts) : opts[k] != nil)
  run err = gev.Connection.Send(c, data, opts)
  let task = cast(func, g_task)
  run task()
  if conn_open(c) {
    assert "subscribed to reads, and to writes exactly while output is pending": subscribed(c)
  }
}
