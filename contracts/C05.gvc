// C05: queued tasks run exactly once, in order, and are never stranded.
//
// Rely/guarantee. Every step of a thread that other threads can see (a critical section, an atomic operation on the
// wake flag, a write to the wake counter) is preceded by arbitrary interference that respects the invariant below, and
// is followed by a proof that the step preserved it. Producers and the loop are verified against each other's
// interference, so the argument covers every number of producers and every interleaving.
//
//   cover   a queued function that has not been taken is covered: a producer has yet to look at the wake flag or to
//           write the counter, the counter is set, or the loop has a pass to come
//   asleep  a lowered wake flag is covered by a producer about to write the counter, by the counter, or by the loop
//           having read the counter without having raised the flag again

ghost g_l int
ghost g_me int       // 1: a producer, 2: the loop
ghost g_lock int     // the lock held by this thread
ghost g_mu int       // the lock that protects the queue
ghost g_q iseq       // the queue as this thread last saw or left it
ghost g_nq int
ghost g_f int        // the function this producer queues
ghost g_added int    // how often it has added it
ghost g_app bool     // this producer has added a function and not yet seen it covered
ghost g_wak bool     // this producer has lowered the flag and not yet written the counter
ghost g_envapp int   // other producers likewise
ghost g_envwak int
ghost g_pend int     // the wake counter
ghost g_stage int    // the loop: 1 has read the counter, 2 has raised the flag as well, 0 has taken the queue
ghost g_taken iseq   // what this round took
ghost g_ntaken int
ghost g_take int     // how often this round took
ghost g_run int      // functions run in this round
ghost g_inround bool

assumption "the spin lock provides mutual exclusion; the queue and the flag are accessed only through it and through the atomic operations"
assumption "writing to the wake counter succeeds"
assumption "the interference model: other threads run QueueInLoop and the loop's rounds (proved here) on the same loop"

spec theloop = cast(*eventloop.EventLoop, g_l)
spec cover(l) = len(l.taskQueueW) > 0 ==> g_app || g_wak || g_envapp > 0 || g_envwak > 0 || g_pend > 0 || g_stage == 1 || g_stage == 2
spec asleep(l) = l.needWake.b == 0 ==> g_wak || g_envwak > 0 || g_pend > 0 || g_stage == 1
spec apart(l) = ref(l.taskQueueW) != ref(l.taskQueueR) || cap(l.taskQueueW) == 0 || cap(l.taskQueueR) == 0
spec sane(l) = (l.needWake.b == 0 || l.needWake.b == 1) && (forall i in 0..len(l.taskQueueW) : l.taskQueueW[i] != nil)

// what this thread did to the queue since it last looked, and the invariant
model verif.settle() {
  let l = cast(*eventloop.EventLoop, g_l)
  if len(l.taskQueueW) != g_nq {
    if g_me == 1 {
      assert "a producer adds its function once, at the end, and changes nothing else": len(l.taskQueueW) == g_nq + 1 && g_added == 0 && (forall i in 0..g_nq : ref(l.taskQueueW[i]) == g_q[i]) && ref(l.taskQueueW[g_nq]) == g_f
      g_added = 1
      g_app = true
    } else {
      assert "the loop takes all queued functions": len(l.taskQueueW) == 0
      assert "once per round": g_take == 0
      g_taken = g_q
      g_ntaken = g_nq
      g_take = 1
    }
  } else {
    assert "the queue is not changed otherwise": (forall i in 0..g_nq : ref(l.taskQueueW[i]) == g_q[i])
  }
  if g_me == 2 && g_stage == 2 && len(l.taskQueueW) == 0 {
    g_stage = 0
  }
  g_app = g_app && !(len(l.taskQueueW) == 0 || g_wak || g_envapp > 0 || g_envwak > 0 || g_pend > 0 || g_stage == 1 || g_stage == 2)
  g_q = seqfn(len(l.taskQueueW), i, ref(l.taskQueueW[i]))
  g_nq = len(l.taskQueueW)
  assert "a queued function is covered": cover(l)
  assert "a lowered wake flag is covered": asleep(l)
  assert "the queue does not share memory with the functions being run": apart(l)
}

model verif.env() {
  let l = cast(*eventloop.EventLoop, g_l)
  call verif.settle()
  if g_lock == 0 {
    havoc l.taskQueueW
    if g_me == 1 {
      havoc l.taskQueueR
    }
  }
  havoc l.needWake.b, g_envapp, g_envwak, g_pend
  assume g_envapp >= 0 && g_envwak >= 0 && g_pend >= 0
  if g_me == 1 {
    havoc g_stage
    assume 0 <= g_stage && g_stage <= 2
  }
  assume apart(l) && sane(l) && cover(l) && asleep(l)
  g_q = seqfn(len(l.taskQueueW), i, ref(l.taskQueueW[i]))
  g_nq = len(l.taskQueueW)
}

// --- steps
model verif.lock(m) {
  assert "the lock is not taken twice": g_lock == 0
  assert "one lock protects the queue": g_mu == 0 || g_mu == m
  call verif.env()
  g_mu = m
  g_lock = m
}
model verif.unlock(m) {
  assert "only a held lock is released": g_lock == m
  call verif.settle()
  g_lock = 0
  call verif.env()
}
model spinlock.SpinLock.Lock(m) {
  call verif.lock(ref(m))
}
model spinlock.SpinLock.Unlock(m) {
  call verif.unlock(ref(m))
}
model sync.Mutex.Lock(m) {
  call verif.lock(ref(m))
}
model sync.Mutex.Unlock(m) {
  call verif.unlock(ref(m))
}
guard eventloop.eventLoopLocal.taskQueueW(p) requires g_lock != 0
guard eventloop.eventLoopLocal.taskQueueR(p) requires g_me == 2

model verif.flag(b, v) {
  // the effect of an atomic step that stores v, which may lower or raise the flag
  let l = cast(*eventloop.EventLoop, g_l)
  let o = b.b
  b.b = v
  g_wak = g_wak || (g_me == 1 && o == 1 && v == 0)
  g_stage = g_me == 2 && g_stage == 1 && v == 1 ? 2 : g_stage
  call verif.settle()
}
spec isflag(b) = ref(b) == ref(cast(*eventloop.EventLoop, g_l).needWake)
model atomic.Bool.Set(b, v)(old) {
  assert "the flag is the loop's": isflag(b)
  call verif.env()
  let o = b.b
  call verif.flag(b, v ? 1 : 0)
  return o == 1
}
model atomic.Bool.Get(b)(v) {
  assert "the flag is the loop's": isflag(b)
  call verif.env()
  return b.b == 1
}
model atomic.Bool.CompareAndSwap(b, old, new)(ok) {
  assert "the flag is the loop's": isflag(b)
  call verif.env()
  if b.b == (old ? 1 : 0) {
    call verif.flag(b, new ? 1 : 0)
    return true
  }
  call verif.settle()
  return false
}
model unix.Write(fd, p)(n, err) {
  let l = cast(*eventloop.EventLoop, g_l)
  assert "only the loop's wake counter is written, with a count": fd == l.poll.eventFd && len(p) == 8 && p[0] == 1 && (forall i in 1..8 : p[i] == 0)
  call verif.env()
  g_pend = g_pend + 1
  g_wak = false
  call verif.settle()
  return 8, nil
}
model log.Logger.Log(l, v) {
}
model log.Logger.Logf(l, f, v) {
}

// --- a queued function, run by the loop; it may queue functions itself, to this loop as well
model "dyn:func()"(f) {
  assert "a function runs only on the loop, in its round, outside the lock": g_inround && g_lock == 0
  assert "only functions taken by this round run": g_take == 1 && g_run < g_ntaken
  assert "each in its turn": ref(f) == g_taken[g_run]
  g_run = g_run + 1
  call verif.env()
}

loop "*" {
  invariant g_run == $i
  invariant g_run == 0
  invariant g_run <= g_ntaken
  invariant g_nq == len(theloop.taskQueueW)
  invariant (forall i in 0..g_nq : ref(theloop.taskQueueW[i]) == g_q[i])
  invariant apart(theloop)
  invariant sane(theloop)
  invariant cover(theloop)
  invariant asleep(theloop)
  invariant g_envapp >= 0 && g_envwak >= 0 && g_pend >= 0
  invariant !g_app && !g_wak
}

model verif.loop()(l0) {
  obj l : eventloop.EventLoop
  obj p : poller.Poller
  obj w : atomic.Bool
  l.poll = p
  l.needWake = w
  g_l = ref(l)
  g_lock = 0
  g_mu = 0
  g_added = 0
  g_app = false
  g_wak = false
  g_take = 0
  g_run = 0
  g_ntaken = 0
  g_inround = false
  assume log.logger != nil
  assume g_envapp >= 0 && g_envwak >= 0 && g_pend >= 0 && 0 <= g_stage && g_stage <= 2
  assume apart(l) && sane(l) && cover(l) && asleep(l)
  g_q = seqfn(len(l.taskQueueW), i, ref(l.taskQueueW[i]))
  g_nq = len(l.taskQueueW)
  return l
}

// --- a producer
proof C05_queue {
  any f : func()
  assume f != nil
  g_me = 1
  g_f = ref(f)
  g_app = false
  g_wak = false
  call l = verif.loop()
  run eventloop.EventLoop.QueueInLoop(l, f)
  call verif.settle()
  assert "the function was queued, once": g_added == 1
  assert "it is covered without this producer": !g_app && !g_wak
  assert "the lock is released": g_lock == 0
}

// --- a round of the loop, started by a wake notification: the counter was read, which made it zero
model poller.Poller.Poll(p, handler) {
  let l = cast(*eventloop.EventLoop, g_l)
  g_inround = true
  run handler(0-1, 0)
  g_inround = false
  call verif.settle()
  g_stage = 0
  assert "a round leaves no function stranded": cover(l)
  assert "and no lowered flag": asleep(l)
  assert "every function taken was run": g_run == g_ntaken
  assert "the lock is released": g_lock == 0
  assert "the next round starts with an empty run queue": len(l.taskQueueR) == 0
}
proof C05_round {
  g_me = 2
  g_stage = 1
  g_app = false
  g_wak = false
  call l = verif.loop()
  assume g_stage == 1
  assume len(l.taskQueueR) == 0
  run eventloop.EventLoop.Run(l)
}

// --- an event is no round
model eventloop.Socket.HandleEvent(s, fd, ev) {
}

// --- a new loop satisfies the invariant
model poller.Create()(p, err) {
  choose {
    obj q : poller.Poller
    return q, nil
  } or {
    any e : error
    assume e != nil
    return nil, e
  }
}
proof C05_new {
  assume eventloop.DefaultPacketSize > 0 && eventloop.DefaultBufferSize > 0 && eventloop.DefaultTaskQueueSize > 0
  g_me = 2
  g_lock = 1
  run l, err = eventloop.New()
  if err == nil {
    g_app = false
    g_wak = false
    g_envapp = 0
    g_envwak = 0
    g_pend = 0
    g_stage = 0
    assert "a new loop satisfies the invariant": cover(l) && asleep(l) && apart(l) && len(l.taskQueueR) == 0 && len(l.taskQueueW) == 0 && l.needWake.b == 1
  }
}
