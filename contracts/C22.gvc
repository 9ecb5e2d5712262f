// C22: every accepted connection is set up exactly once on one of the loops.
// A server is created from an arbitrary option, a readiness event of its listener is handled, and the queued task is run.
ghost g_pending int    // an accepted descriptor not handed over or closed yet (-1: none)
ghost g_nb bool        // it is non-blocking
ghost g_naccept int    // accepts tried
ghost g_fd int         // the descriptor handed over
ghost g_nhand int      // hand-overs: tasks queued for it
ghost g_chosen int     // the loop the strategy chose
ghost g_nchosen int
ghost g_loopq int
ghost g_task int
ghost g_sa_t int
ghost g_sa_d int
ghost g_nconnect int
ghost g_nreg int       // registrations
ghost g_cb_t int
ghost g_cb_d int
ghost g_pr_t int
ghost g_pr_d int
ghost g_tw int
ghost g_idle int
ghost g_conn int
ghost g_ip seq
ghost g_port int
ghost g_ipstr int
ghost g_joined seq
ghost g_accepting bool
ghost g_wl int         // the array of work loops

assumption "net.IP.String, strconv.Itoa and net.JoinHostPort render an address correctly"
assumption "an accepted descriptor is not registered with any loop (closed descriptors are deregistered, C03)"
assumption "a strategy returns one of the loops it is given (C08 for the built-in ones)"

model log.Logger.Log(l, v) {
}
model log.Logger.Logf(l, f, v) {
}
model timingwheel.NewTimingWheel(tick, size)(w) {
  any w0 : *timingwheel.TimingWheel
  assume w0 != nil
  g_tw = ref(w0)
  return w0
}
model net.Listen(network, addr)(l, err) {
  any ls : net.Listener
  any e : error
  assume (e == nil) <==> (ls != nil)
  return ls, e
}
model reuseport.Listen(network, addr)(l, err) {
  any ls : net.Listener
  any e : error
  assume (e == nil) <==> (ls != nil)
  return ls, e
}
model net.TCPListener.File(l)(f, err) {
  any f0 : *os.File
  any e : error
  assume (e == nil) <==> (f0 != nil)
  return f0, e
}
model os.File.Fd(f)(n) {
  any n0 : uintptr
  assume n0 < pow2(31)
  return n0
}
model runtime.NumCPU()(n) {
  any n0 : int
  assume n0 >= 1 && n0 < pow2(20)
  return n0
}
model eventloop.New()(l, err) {
  choose {
    new l0 : eventloop.EventLoop
    new p : poller.Poller
    any m : map[int]eventloop.Socket
    assume m != nil
    l0.poll = p
    l0.sockets = m
    return l0, nil
  } or {
    any e : error
    assume e != nil
    return nil, e
  }
}
model "dyn:func(*gev.Options)"(f, o) {
  havoc o.*
  assume o.Strategy != nil
  assume o.NumLoops < pow2(20)
  g_pr_t = tag(o.Protocol)
  g_pr_d = ref(o.Protocol)
  g_idle = o.IdleTime
}
model eventloop.EventLoop.Stop(l)(err) {
  any e : error
  return e
}

// --- accepting
model unix.Accept(fd)(nfd, sa, err) {
  assert "nothing is accepted while an accepted descriptor is neither handed over nor closed": g_pending == 0-1
  g_naccept = g_naccept + 1
  g_nb = false
  choose {
    any n : int
    any s : unix.Sockaddr
    assume 0 <= n && n < pow2(31)
    assume s != nil && ref(s) != 0
    g_pending = n
    g_sa_t = tag(s)
    g_sa_d = ref(s)
    return n, s, nil
  } or {
    any e : error
    assume e != nil
    return -1, nil, e
  }
}
model unix.Accept4(fd, flags)(nfd, sa, err) {
  call n, s, e = unix.Accept(fd)
  g_nb = (flags / unix.SOCK_NONBLOCK) % 2 == 1
  return n, s, e
}
model unix.SetNonblock(fd, on)(err) {
  if !g_accepting {
    any e0 : error
    return e0
  }
  assert "the accepted descriptor is made non-blocking": fd == g_pending && on
  any e : error
  g_nb = e == nil
  return e
}
model unix.Close(fd)(err) {
  assert "only the accepted descriptor is closed, when it cannot be made non-blocking": fd == g_pending && !g_nb
  g_pending = 0-1
  any e : error
  return e
}
model "dyn:func([]*eventloop.EventLoop)"(f, loops)(l) {
  any k : int
  assert "the strategy chooses among the server's loops": ref(loops) == g_wl && len(loops) > 0
  assume 0 <= k && k < len(loops)
  let l0 = loops[k]
  // made by eventloop.New (C21 proves that every loop of the server is, C07 that such a loop has a registry)
  assume l0 != nil && l0.poll != nil && l0.sockets != nil
  assume !has(l0.sockets, g_pending)
  g_chosen = ref(l0)
  g_nchosen = g_nchosen + 1
  return l0
}
model eventloop.EventLoop.QueueInLoop(l, f) {
  assert "a descriptor is handed over once, non-blocking": g_pending >= 0 && g_nb
  assert "to the loop the strategy chose": ref(l) == g_chosen
  g_nhand = g_nhand + 1
  g_fd = g_pending
  g_pending = 0-1
  g_task = ref(f)
  g_loopq = ref(l)
}
loop "*" {
  invariant g_pending == 0-1
  invariant g_nhand == 0
  invariant forall j in 0..len(server.workLoops) : server.workLoops[j] != nil
}

// --- the queued task
model ringbuffer.GetFromPool()(b0) {
  run b = ringbuffer.New(0)
  return b
}
model time.Now()(t) {
  any t0 : time.Time
  return t0
}
model timingwheel.TimingWheel.AfterFunc(tw, d, f)(t) {
  // the timer may fire at once and queue a close
  assert "the idle timer starts only when the task that sets the connection up is queued": g_nhand == 1
  new t0 : timingwheel.Timer
  return t0
}
model atomic.Value.Store(v, x) {
}
model net.IP.String(ip)(s) {
  g_ip = bytes(ip)
  any s0 : string
  g_ipstr = strid(s0)
  return s0
}
uf itoa(1) int
model strconv.Itoa(n)(s) {
  any s0 : string
  assume strid(s0) == itoa(n)
  g_port = n
  return s0
}
model net.JoinHostPort(h, p)(s) {
  assert "the peer address is made of the address and the port": strid(h) == g_ipstr && strid(p) == itoa(g_port)
  any s0 : string
  g_joined = str(s0)
  return s0
}
spec good(c) = ref(c.loop) == g_loopq && c.fd == g_fd && tag(c.callBack) == g_cb_t && ref(c.callBack) == g_cb_d && ref(c.timingWheel) == g_tw && c.idleTime == g_idle && c.connected.b == 1
model gev.Handler.OnConnect(h, c) {
  assert "OnConnect is the handler's and is called once": tag(h) == g_cb_t && ref(h) == g_cb_d && g_nconnect == 0
  assert "before the connection is registered": g_nreg == 0
  assert "with a connection that has the server's settings": good(c)
  assert "and its protocol": g_pr_t != 0 ? tag(c.protocol) == g_pr_t && ref(c.protocol) == g_pr_d : istype(*gev.DefaultProtocol, c.protocol)
  g_nconnect = g_nconnect + 1
  g_conn = ref(c)
  run a = gev.Connection.PeerAddr(c)
  if g_sa_t == typeid(*unix.SockaddrInet4) {
    let s4 = cast(*unix.SockaddrInet4, g_sa_d)
    assert "the connection has its peer address (IPv4)": str(a) == g_joined && len(g_ip) == 4 && (forall i in 0..4 : g_ip[i] == s4.Addr[i]) && g_port == s4.Port
  }
  if g_sa_t == typeid(*unix.SockaddrInet6) {
    let s6 = cast(*unix.SockaddrInet6, g_sa_d)
    assert "the connection has its peer address (IPv6)": str(a) == g_joined && len(g_ip) == 16 && (forall i in 0..16 : g_ip[i] == s6.Addr[i]) && g_port == s6.Port
  }
}
ghost g_listening bool
model unix.EpollCtl(epfd, op, fd, ev)(err) {
  if g_accepting {
    assert "the connection is registered for reading, once, after OnConnect": op == unix.EPOLL_CTL_ADD && fd == g_fd && g_nconnect == 1 && g_nreg == 0 && ev.Fd == fd && ev.Events % 2 == 1
    assert "level-triggered, and for reading only": (ev.Events / 4) % 2 == 0 && ev.Events < pow2(30)
    let l = cast(*eventloop.EventLoop, g_loopq)
    assert "on the chosen loop": epfd == l.poll.fd
    g_nreg = g_nreg + 1
  }
  any e : error
  return e
}

proof C22_accept shards 8 {
  assume log.logger != nil
  sym h : gev.Handler
  assume h != nil
  g_cb_t = tag(h)
  g_cb_d = ref(h)
  sym opts : []gev.Option
  assume cap(opts) >= 1 && len(opts) >= 1 && opts[0] != nil
  g_accepting = false
  g_pending = 0-1
  g_nhand = 0
  run s, err = gev.NewServer(h, opts[0:1])
  if err == nil {
    g_accepting = true
    g_naccept = 0
    g_nhand = 0
    g_nchosen = 0
    g_nconnect = 0
    g_nreg = 0
    g_wl = ref(s.workLoops)
    sym ev : poller.Event
    run gev.listener.HandleEvent(s.listener, s.listener.fd, ev)
    assert "an accepted descriptor is handed over or closed": g_pending == 0-1
    assert "a readable listener accepts": ev % 2 == 1 ==> g_naccept >= 1
    if g_nhand == 1 {
      assert "one loop is chosen for one connection": g_nchosen == 1
      let task = cast(func, g_task)
      run task()
      assert "OnConnect has run once and the connection was registered, with the loop knowing it if that succeeded": g_nconnect == 1 && g_nreg == 1
      let l = cast(*eventloop.EventLoop, g_loopq)
      assert "under its descriptor": has(l.sockets, g_fd) ==> ref(l.sockets[g_fd]) == g_conn
    }
  }
}
