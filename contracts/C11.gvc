// C11: the per-connection key/value store is a correct map, every access under its lock.

// The lock of the store: how often it is held by the running call, and which lock object that is. Interleavings of
// whole calls are covered by proving each operation from an arbitrary state; that calls are atomic follows from the
// guards below (every access is made while the lock is held) and mutual exclusion by the lock.
ghost g_w int       // held exclusively
ghost g_r int       // held shared
ghost g_lock int    // the lock taken first
ghost g_cs int      // critical sections entered
assumption "sync.RWMutex and sync.Mutex provide mutual exclusion"
assumption "string keys are compared by content: equal strings have equal identities in the map model"

model sync.RWMutex.Lock(m) {
  assert "the lock is not taken twice by one call": g_w == 0 && g_r == 0
  assert "one and the same lock protects the store": g_lock == 0 || g_lock == ref(m)
  g_lock = ref(m)
  g_w = 1
  g_cs = g_cs + 1
}
model sync.RWMutex.Unlock(m) {
  assert "only a held lock is released": g_w == 1 && g_lock == ref(m)
  g_w = 0
}
model sync.RWMutex.RLock(m) {
  assert "the lock is not taken twice by one call": g_w == 0 && g_r == 0
  assert "one and the same lock protects the store": g_lock == 0 || g_lock == ref(m)
  g_lock = ref(m)
  g_r = 1
  g_cs = g_cs + 1
}
model sync.RWMutex.RUnlock(m) {
  assert "only a held lock is released": g_r == 1 && g_lock == ref(m)
  g_r = 0
}
model sync.Mutex.Lock(m) {
  assert "the lock is not taken twice by one call": g_w == 0 && g_r == 0
  assert "one and the same lock protects the store": g_lock == 0 || g_lock == ref(m)
  g_lock = ref(m)
  g_w = 1
  g_cs = g_cs + 1
}
model sync.Mutex.Unlock(m) {
  assert "only a held lock is released": g_w == 1 && g_lock == ref(m)
  g_w = 0
}

// every access under the lock
guard gev.KeyValueContext.kv(c) requires g_w + g_r >= 1
guard "map:map[string]any"(m) requires g_w + g_r >= 1
// writes under the exclusive lock
guard write gev.KeyValueContext.kv(c) requires g_w == 1
guard write "map:map[string]any"(m) requires g_w == 1

spec idle = g_w == 0 && g_r == 0
spec same(a, b) = strid(a) == strid(b)

proof C11_fresh {
  new c : gev.KeyValueContext
  sym k : string
  sym j : string
  sym v : any
  g_w = 0
  g_r = 0
  g_lock = 0
  g_cs = 0
  run v0, ok0 = gev.KeyValueContext.Get(c, j)
  assert "the lock is released": idle
  assert "one critical section per call (Get)": g_cs == 1
  assert "an unused store is empty": !ok0 && v0 == nil
  g_cs = 0
  run gev.KeyValueContext.Delete(c, k)
  assert "the lock is released": idle
  assert "one critical section per call (Delete)": g_cs == 1
  g_cs = 0
  run v1, ok1 = gev.KeyValueContext.Get(c, j)
  assert "the lock is released": idle
  assert "one critical section per call (Get)": g_cs == 1
  assert "deleting from an unused store does nothing": !ok1 && v1 == nil
  g_cs = 0
  run gev.KeyValueContext.Set(c, k, v)
  assert "the lock is released": idle
  assert "one critical section per call (Set)": g_cs == 1
  g_cs = 0
  run v2, ok2 = gev.KeyValueContext.Get(c, j)
  assert "the lock is released": idle
  assert "one critical section per call (Get)": g_cs == 1
  assert "only the key set is present": same(j, k) ? ok2 && v2 == v : !ok2 && v2 == nil
}

proof C11_set {
  obj c : gev.KeyValueContext
  sym k : string
  sym j : string
  g_w = 0
  g_r = 0
  g_lock = 0
  sym v : any
  g_cs = 0
  run v0, ok0 = gev.KeyValueContext.Get(c, j)
  assert "the lock is released": idle
  assert "one critical section per call (Get)": g_cs == 1
  assert "an absent key reads as nil": ok0 || v0 == nil
  g_cs = 0
  run gev.KeyValueContext.Set(c, k, v)
  assert "the lock is released": idle
  assert "one critical section per call (Set)": g_cs == 1
  g_cs = 0
  run v1, ok1 = gev.KeyValueContext.Get(c, k)
  assert "the lock is released": idle
  assert "one critical section per call (Get)": g_cs == 1
  assert "Get returns the value most recently set": ok1 && v1 == v
  g_cs = 0
  run v2, ok2 = gev.KeyValueContext.Get(c, j)
  assert "the lock is released": idle
  assert "one critical section per call (Get)": g_cs == 1
  assert "Get changes nothing, and Set leaves the other keys alone": !same(j, k) ==> ok2 == ok0 && v2 == v0
}

proof C11_delete {
  obj c : gev.KeyValueContext
  sym k : string
  sym j : string
  g_w = 0
  g_r = 0
  g_lock = 0
  g_cs = 0
  run v0, ok0 = gev.KeyValueContext.Get(c, j)
  assert "the lock is released": idle
  assert "one critical section per call (Get)": g_cs == 1
  g_cs = 0
  run gev.KeyValueContext.Delete(c, k)
  assert "the lock is released": idle
  assert "one critical section per call (Delete)": g_cs == 1
  g_cs = 0
  run v1, ok1 = gev.KeyValueContext.Get(c, k)
  assert "the lock is released": idle
  assert "one critical section per call (Get)": g_cs == 1
  assert "a deleted key is absent": !ok1 && v1 == nil
  g_cs = 0
  run v2, ok2 = gev.KeyValueContext.Get(c, j)
  assert "the lock is released": idle
  assert "one critical section per call (Get)": g_cs == 1
  assert "Delete leaves the other keys alone": !same(j, k) ==> ok2 == ok0 && v2 == v0
}
