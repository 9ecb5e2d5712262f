// Part of C04: a connection is registered for reading only, level-triggered; its write interest is then kept by C04.gvc.
ghost g_adds int
ghost g_mask int

model log.Logger.Log(l, v) {
}
model unix.EpollCtl(epfd, op, fd, ev)(err) {
  if op == unix.EPOLL_CTL_ADD {
    g_adds = g_adds + 1
    g_mask = ev.Events
  } else {
    assert "a new descriptor is registered, not modified": op == unix.EPOLL_CTL_DEL
  }
  any e : error
  return e
}

proof C04_register {
  assume log.logger != nil
  obj l : eventloop.EventLoop
  obj p : poller.Poller
  l.poll = p
  any fd : int
  any s : eventloop.Socket
  g_adds = 0
  assume l.sockets != nil
  run err = eventloop.EventLoop.AddSocketAndEnableRead(l, fd, s)
  if err == nil {
    assert "registered once": g_adds == 1
    assert "read interest from the start, no write interest, level-triggered": g_mask % 2 == 1 && (g_mask / 4) % 2 == 0 && 0 <= g_mask && g_mask < pow2(30)
  }
}
