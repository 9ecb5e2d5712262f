// C06: readiness notifications are translated and dispatched faithfully.

// The current batch: what the last wait call returned, and what has been delivered of it. Records are delivered in
// the order of the batch; g_pos is the number of records dealt with (a wake record may be passed over).
ghost g_ep int
ghost g_n int         // records of the batch
ghost g_fds iseq      // their descriptors
ghost g_evs iseq      // their events
ghost g_w int         // index of the wake record, -1 if there is none
ghost g_pos int
ghost g_handled bool  // the wake notification of this batch was delivered
ghost g_read bool     // the wake counter was read, the wake notification not yet delivered
ghost g_seen bool     // the last batch contained a wakeup
ghost g_batches int

assumption "a batch has at most one record of the wake descriptor; epoll reports a descriptor once per batch"
assumption "the array of records is not visible to the handler"
assumption "logging has no other effect"

model log.Logger.Log(l, v) {
}
model log.Logger.Logf(l, f, v) {
}
model runtime.Gosched() {
}
model unix.Close(fd)(err) {
  any e : error
  return e
}

// the records up to k are dealt with
spec upto(k) = g_pos == k || (g_pos + 1 == k && g_pos == g_w)
// the batch is complete
spec complete = upto(g_n) && (g_w >= 0 ==> g_handled) && !g_read

model unix.EpollWait(fd, events, msec)(n0, err) {
  let ep = cast(*poller.Poller, g_ep)
  assert "it waits on its own epoll instance, with room for records": fd == ep.fd && len(events) >= 1
  assert "every record of the last batch was delivered": upto(g_n)
  assert "a wakeup seen in the last batch was delivered": g_w >= 0 ==> g_handled
  assert "the counter is not read without delivering the wakeup": !g_read
  any e : error
  any n : int
  assume n <= len(events) && n >= 0-1
  g_n = n > 0 ? n : 0
  havoc bytes(events)
  g_fds = seqfn(g_n, i, events[i].Fd)
  g_evs = seqfn(g_n, i, events[i].Events)
  any w : int
  assume w >= 0-1 && w < g_n
  assume w >= 0 ==> g_fds[w] == ep.eventFd
  assume (forall j in 0..g_n : g_fds[j] == ep.eventFd ==> j == w)
  assume (forall j in 0..g_n : g_fds[j] >= 0)
  g_w = w
  g_pos = 0
  g_handled = false
  g_seen = w >= 0
  assume e != nil && e != unix.EINTR ==> n < 0
  return n, e
}

model unix.Read(fd, p)(n, err) {
  let ep = cast(*poller.Poller, g_ep)
  assert "only the wake counter is read, when it is due": fd == ep.eventFd && g_w >= 0 && !g_handled
  g_read = true
  any k : int
  any e : error
  assume k <= len(p) && k >= 0-1
  return k, e
}

model "dyn:func(int, poller.Event)"(f, fd, ev) {
  let ep = cast(*poller.Poller, g_ep)
  if fd == 0-1 {
    assert "the wake notification comes only for a wakeup": g_w >= 0
    assert "and once": !g_handled
    assert "after all records of the batch": upto(g_n)
    g_handled = true
    g_read = false
  } else {
    assert "no record is delivered after the wake notification": !g_handled
    let p = g_pos == g_w ? g_pos + 1 : g_pos
    assert "a delivery belongs to a record of the batch": p < g_n
    assert "each record is delivered once, with its own descriptor": g_fds[p] == fd
    assert "the wake descriptor is never delivered": fd != ep.eventFd
    let r = g_evs[p]
    assert "read means readable, urgent or peer half-close": (ev % 2 == 1) == (r % 2 == 1 || (r / 2) % 2 == 1 || (r / 8192) % 2 == 1)
    assert "write means writable or error": ((ev / 2) % 2 == 1) == ((r / 4) % 2 == 1 || (r / 8) % 2 == 1)
    assert "error means hang-up without readable data": ((ev / 128) % 2 == 1) == ((r / 16) % 2 == 1 && r % 2 == 0)
    assert "nothing else is reported": (ev / 4) % 32 == 0
    g_pos = p + 1
    // meanwhile the poller may be stopped
    if ep.running.b == 1 {
      havoc ep.running.b
    }
  }
}

loop "*" {
  invariant upto($i)
  invariant complete
  invariant g_n >= 0
  invariant len($p) >= 1
  invariant $b == (g_w >= 0 && g_w < $i)
  invariant !$b
  invariant g_n == 0
  invariant g_read ==> g_w >= 0 && g_w < $i
  invariant !g_handled
}

proof C06_poll shards 6 {
  assume log.logger != nil
  obj ep : poller.Poller
  g_ep = ref(ep)
  g_n = 0
  g_w = 0-1
  g_pos = 0
  g_read = false
  g_seen = false
  assume 0 <= ep.fd && ep.fd < pow2(31) && 0 <= ep.eventFd && ep.eventFd < pow2(31)
  any h : func(int, poller.Event)
  assume h != nil
  run poller.Poller.Poll(ep, h)
  assert "polling ends only after a wakeup": g_seen
  assert "while the poller is no longer running": ep.running.b != 1
  assert "with the batch delivered": complete
}
