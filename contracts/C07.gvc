// C07: a loop's registry and connection count stay consistent.
ghost g_last int   // the last epoll_ctl
ghost g_lastfd int
ghost g_ctl int
ghost g_err bool
ghost g_nev int    // events delivered
ghost g_evsock int
ghost g_evfd int
ghost g_ev int
ghost g_drop bool

model log.Logger.Log(l, v) {
}
model log.Logger.Logf(l, f, v) {
}
assumption "epoll_ctl refuses to add a descriptor that is registered; a registered descriptor is closed only after it was deregistered (C03)"
ghost g_known bool
model unix.EpollCtl(epfd, op, fd, ev)(err) {
  any e : error
  assume op == unix.EPOLL_CTL_ADD && g_known ==> e != nil
  g_last = op
  g_lastfd = fd
  g_ctl = g_ctl + 1
  g_err = e != nil
  return e
}
model eventloop.Socket.HandleEvent(s, fd, ev) {
  g_nev = g_nev + 1
  g_evsock = ref(s)
  g_evfd = fd
  g_ev = ev
}
// one event, whatever its descriptor (-1 is the wake notification, see C05)
model poller.Poller.Poll(p, handler) {
  any fd : int
  any ev : poller.Event
  assume fd >= 0
  g_evfd = -2
  snap before
  g_drop = false
  call verif.step(handler, fd, ev)
}
ghost g_l int
model verif.step(handler, fd, ev) {
  let l = cast(*eventloop.EventLoop, g_l)
  let known = has(l.sockets, fd)
  let s = l.sockets[fd]
  assume known ==> s != nil
  let n = l.ConnCunt.v
  snap before
  run handler(fd, ev)
  assert "an event goes to the socket registered under its descriptor, once": known ==> g_nev == 1 && g_evsock == ref(s) && g_evfd == fd && g_ev == ev
  assert "an event for an unknown descriptor is ignored": !known ==> g_nev == 0
  any other : int
  assert "dispatching changes neither registry nor count": l.ConnCunt.v == n && has(l.sockets, other) == at(before, has(l.sockets, other)) && l.sockets[other] == at(before, l.sockets[other])
}

model verif.loop()(l0) {
  obj l : eventloop.EventLoop
  obj p : poller.Poller
  l.poll = p
  assume l.sockets != nil && log.logger != nil
  assume l.ConnCunt.v == len(l.sockets)
  g_l = ref(l)
  g_ctl = 0
  g_known = false
  g_nev = 0
  return l
}

proof C07_add {
  call l = verif.loop()
  any fd : int
  assume 0 <= fd && fd < pow2(31)
  sym s : eventloop.Socket
  any other : int
  let n = l.ConnCunt.v
  let known = has(l.sockets, fd)
  g_known = known
  snap before
  run err = eventloop.EventLoop.AddSocketAndEnableRead(l, fd, s)
  assert "the descriptor is registered with the poller, once, and the result is reported": g_ctl == 1 && g_last == unix.EPOLL_CTL_ADD && g_lastfd == fd && (err != nil) == g_err
  assert "a successful registration adds the socket and one to the count": err == nil ==> has(l.sockets, fd) && l.sockets[fd] == s && l.ConnCunt.v == n + 1
  assert "a failed registration changes neither": err != nil ==> has(l.sockets, fd) == known && l.ConnCunt.v == n && (known ==> l.sockets[fd] == at(before, l.sockets[fd]))
  assert "the count is the number of sockets": l.ConnCunt.v == len(l.sockets)
  assert "no other descriptor is affected": other != fd ==> has(l.sockets, other) == at(before, has(l.sockets, other)) && l.sockets[other] == at(before, l.sockets[other])
  run k = eventloop.EventLoop.ConnectionCount(l)
  assert "the count is reported": k == l.ConnCunt.v
}

proof C07_delete {
  call l = verif.loop()
  any fd : int
  assume 0 <= fd && fd < pow2(31)
  any other : int
  let n = l.ConnCunt.v
  let known = has(l.sockets, fd)
  snap before
  run eventloop.EventLoop.DeleteFdInLoop(l, fd)
  assert "removal deletes the descriptor": !has(l.sockets, fd)
  assert "and subtracts one if it was registered": l.ConnCunt.v == (known ? n - 1 : n)
  assert "it is deregistered from the poller": g_ctl == 1 && g_last == unix.EPOLL_CTL_DEL && g_lastfd == fd
  assert "the count is the number of sockets": l.ConnCunt.v == len(l.sockets)
  assert "no other descriptor is affected": other != fd ==> has(l.sockets, other) == at(before, has(l.sockets, other)) && l.sockets[other] == at(before, l.sockets[other])
}

// --- changing the interest of a descriptor changes neither
proof C07_interest {
  call l = verif.loop()
  any fd : int
  any other : int
  any which : bool
  let n = l.ConnCunt.v
  snap before
  if which {
    run e1 = eventloop.EventLoop.EnableRead(l, fd)
  } else {
    run e2 = eventloop.EventLoop.EnableReadWrite(l, fd)
  }
  assert "registry and count are unchanged": l.ConnCunt.v == n && has(l.sockets, other) == at(before, has(l.sockets, other)) && l.sockets[other] == at(before, l.sockets[other])
}

proof C07_dispatch {
  call l = verif.loop()
  run eventloop.EventLoop.Run(l)
}

// --- a new loop is empty
model poller.Create()(p, err) {
  choose {
    obj q : poller.Poller
    return q, nil
  } or {
    any e : error
    assume e != nil
    return nil, e
  }
}
proof C07_new {
  assume eventloop.DefaultPacketSize > 0 && eventloop.DefaultBufferSize > 0 && eventloop.DefaultTaskQueueSize > 0
  run l, err = eventloop.New()
  if err == nil {
    any fd : int
    assert "a new loop has no sockets and counts none": l != nil && l.ConnCunt.v == 0 && len(l.sockets) == 0 && !has(l.sockets, fd) && l.sockets != nil
  }
}

// --- a stopped loop is empty and counts nothing
ghost g_task int
ghost g_ntask int
ghost g_nclosed int
model eventloop.EventLoop.QueueInLoop(l, f) {
  g_task = ref(f)
  g_ntask = g_ntask + 1
}
model poller.Poller.Close(p)(err) {
  any e : error
  return e
}
model eventloop.Socket.Close(s)(err) {
  any e : error
  return e
}
proof C07_stop {
  call l = verif.loop()
  any fd : int
  assume (forall k in 0-pow2(63)..pow2(63) : has(l.sockets, k) ==> l.sockets[k] != nil)
  g_ntask = 0
  run err = eventloop.EventLoop.Stop(l)
  if g_ntask == 1 {
    let task = cast(func, g_task)
    run task()
  }
  assert "a stopped loop has no sockets and counts none": l.ConnCunt.v == 0 && !has(l.sockets, fd)
}
