// C10: idle connections are closed after, and not before, the idle time.
spec on01 = false
spec on02 = false
spec on03 = false
spec on04 = false
spec on09 = false
include "core.gvc"

spec second = 1000000000

// --- a new connection with an idle time: one timer, for that time; without: none
proof C10_new {
  any tw : *timingwheel.TimingWheel
  any idle : time.Duration
  any t0 : int64
  assume sane(t0)
  g_now = t0
  call c = verif.created(tw, idle)
  assert "a timer exists exactly if an idle time is configured": g_narm == (idle > 0 ? 1 : 0)
  assert "it is armed for the idle time": idle > 0 ==> g_delay == idle
  assert "the activity time is the time of creation": idle > 0 ==> t0 / second <= c.activeTime.v && c.activeTime.v <= g_now / second
  if idle > 0 {
    let f = cast(func, g_timerf)
    // the timer fires in whatever state the connection is then
    any up : int32
    any act : int64
    assume up == 0 || up == 1
    assume 0 <= act && act < pow2(32)
    c.connected.b = up
    c.activeTime.v = act
    any fire : int64
    assume sane(fire) && act * second <= fire
    g_now = fire
    g_narm = 0
    g_ntask = 0
    g_inloop = false
    run f()
    let away = g_now - act * second
    assert "a closed connection: nothing happens": up == 0 ==> g_narm == 0 && g_ntask == 0
    assert "it is closed exactly if it was idle for the idle time": up == 1 ==> (g_ntask == (away >= idle ? 1 : 0))
    assert "otherwise the timer is re-armed for exactly the remaining time": up == 1 ==> (away < idle ? g_narm == 1 && g_delay == idle - away : g_narm == 0)
    assert "the activity time is left alone": c.activeTime.v == act && c.connected.b == up
    if g_narm == 1 {
      assert "the timer function is the same": samefunc(cast(func, g_timerf), f)
    }
    if g_ntask == 1 {
      assert "it is closed on its own loop": g_loopq == ref(c.loop)
      let task = cast(func, g_task)
      g_inloop = true
      run task()
      assert "closing tears it down": !conn_open(c) && g_nonclose == 1 && g_nclose == 1
    }
  }
}

// --- every event refreshes the activity time
proof C10_event shards 8 {
  call c = verif.open()
  any t0 : int64
  assume sane(t0)
  g_now = t0
  g_narm = 0
  sym ev : poller.Event
  let idle = c.idleTime
  run gev.Connection.HandleEvent(c, c.fd, ev)
  assert "every event refreshes the activity time": idle > 0 ==> t0 / second <= c.activeTime.v && c.activeTime.v <= g_now / second
  assert "no further timer is armed": g_narm == 0
  assert "the idle time stays": c.idleTime == idle
}

// --- sending arms no timer
proof C10_send {
  call c = verif.open()
  let act = c.activeTime.v
  let idle = c.idleTime
  g_narm = 0
  sym data : any
  sym opts : []gev.ConnectionOption
  assume (forall k in 0..len(opts) : opts[k] != nil)
  run err = gev.Connection.Send(c, data, opts)
  let task = cast(func, g_task)
  run task()
  assert "no timer is armed": g_narm == 0 && c.idleTime == idle
}
