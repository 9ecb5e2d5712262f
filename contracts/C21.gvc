// C21: options take effect, later ones override earlier ones, defaults fill only what is unset.

// --- each option sets exactly its own setting, whatever the settings were before
proof C21_ReusePort {
  obj o : gev.Options
  sym a0 : bool
  run f = gev.ReusePort(a0)
  snap s
  run f(o)
  assert "ReusePort takes effect": o.ReusePort == a0
  assert "ReusePort changes no other setting": str(o.Network) == at(s, str(o.Network)) && str(o.Address) == at(s, str(o.Address)) && o.NumLoops == at(s, o.NumLoops) && o.IdleTime == at(s, o.IdleTime) && o.Protocol == at(s, o.Protocol) && o.Strategy == at(s, o.Strategy) && o.tick == at(s, o.tick) && o.wheelSize == at(s, o.wheelSize) && str(o.metricsPath) == at(s, str(o.metricsPath)) && str(o.metricsAddress) == at(s, str(o.metricsAddress))
}

proof C21_Network {
  obj o : gev.Options
  sym a0 : string
  run f = gev.Network(a0)
  snap s
  run f(o)
  assert "Network takes effect": str(o.Network) == str(a0)
  assert "Network changes no other setting": str(o.Address) == at(s, str(o.Address)) && o.NumLoops == at(s, o.NumLoops) && o.ReusePort == at(s, o.ReusePort) && o.IdleTime == at(s, o.IdleTime) && o.Protocol == at(s, o.Protocol) && o.Strategy == at(s, o.Strategy) && o.tick == at(s, o.tick) && o.wheelSize == at(s, o.wheelSize) && str(o.metricsPath) == at(s, str(o.metricsPath)) && str(o.metricsAddress) == at(s, str(o.metricsAddress))
}

proof C21_Address {
  obj o : gev.Options
  sym a0 : string
  run f = gev.Address(a0)
  snap s
  run f(o)
  assert "Address takes effect": str(o.Address) == str(a0)
  assert "Address changes no other setting": str(o.Network) == at(s, str(o.Network)) && o.NumLoops == at(s, o.NumLoops) && o.ReusePort == at(s, o.ReusePort) && o.IdleTime == at(s, o.IdleTime) && o.Protocol == at(s, o.Protocol) && o.Strategy == at(s, o.Strategy) && o.tick == at(s, o.tick) && o.wheelSize == at(s, o.wheelSize) && str(o.metricsPath) == at(s, str(o.metricsPath)) && str(o.metricsAddress) == at(s, str(o.metricsAddress))
}

proof C21_NumLoops {
  obj o : gev.Options
  sym a0 : int
  run f = gev.NumLoops(a0)
  snap s
  run f(o)
  assert "NumLoops takes effect": o.NumLoops == a0
  assert "NumLoops changes no other setting": str(o.Network) == at(s, str(o.Network)) && str(o.Address) == at(s, str(o.Address)) && o.ReusePort == at(s, o.ReusePort) && o.IdleTime == at(s, o.IdleTime) && o.Protocol == at(s, o.Protocol) && o.Strategy == at(s, o.Strategy) && o.tick == at(s, o.tick) && o.wheelSize == at(s, o.wheelSize) && str(o.metricsPath) == at(s, str(o.metricsPath)) && str(o.metricsAddress) == at(s, str(o.metricsAddress))
}

proof C21_CustomProtocol {
  obj o : gev.Options
  sym a0 : gev.Protocol
  run f = gev.CustomProtocol(a0)
  snap s
  run f(o)
  assert "CustomProtocol takes effect": o.Protocol == a0
  assert "CustomProtocol changes no other setting": str(o.Network) == at(s, str(o.Network)) && str(o.Address) == at(s, str(o.Address)) && o.NumLoops == at(s, o.NumLoops) && o.ReusePort == at(s, o.ReusePort) && o.IdleTime == at(s, o.IdleTime) && o.Strategy == at(s, o.Strategy) && o.tick == at(s, o.tick) && o.wheelSize == at(s, o.wheelSize) && str(o.metricsPath) == at(s, str(o.metricsPath)) && str(o.metricsAddress) == at(s, str(o.metricsAddress))
}

proof C21_IdleTime {
  obj o : gev.Options
  sym a0 : time.Duration
  run f = gev.IdleTime(a0)
  snap s
  run f(o)
  assert "IdleTime takes effect": o.IdleTime == a0
  assert "IdleTime changes no other setting": str(o.Network) == at(s, str(o.Network)) && str(o.Address) == at(s, str(o.Address)) && o.NumLoops == at(s, o.NumLoops) && o.ReusePort == at(s, o.ReusePort) && o.Protocol == at(s, o.Protocol) && o.Strategy == at(s, o.Strategy) && o.tick == at(s, o.tick) && o.wheelSize == at(s, o.wheelSize) && str(o.metricsPath) == at(s, str(o.metricsPath)) && str(o.metricsAddress) == at(s, str(o.metricsAddress))
}

proof C21_LoadBalance {
  obj o : gev.Options
  sym a0 : gev.LoadBalanceStrategy
  run f = gev.LoadBalance(a0)
  snap s
  run f(o)
  assert "LoadBalance takes effect": o.Strategy == a0
  assert "LoadBalance changes no other setting": str(o.Network) == at(s, str(o.Network)) && str(o.Address) == at(s, str(o.Address)) && o.NumLoops == at(s, o.NumLoops) && o.ReusePort == at(s, o.ReusePort) && o.IdleTime == at(s, o.IdleTime) && o.Protocol == at(s, o.Protocol) && o.tick == at(s, o.tick) && o.wheelSize == at(s, o.wheelSize) && str(o.metricsPath) == at(s, str(o.metricsPath)) && str(o.metricsAddress) == at(s, str(o.metricsAddress))
}

proof C21_MetricsServer {
  obj o : gev.Options
  sym a0 : string
  sym a1 : string
  run f = gev.MetricsServer(a0, a1)
  snap s
  run f(o)
  assert "MetricsServer takes effect": str(o.metricsPath) == str(a0) && str(o.metricsAddress) == str(a1)
  assert "MetricsServer changes no other setting": str(o.Network) == at(s, str(o.Network)) && str(o.Address) == at(s, str(o.Address)) && o.NumLoops == at(s, o.NumLoops) && o.ReusePort == at(s, o.ReusePort) && o.IdleTime == at(s, o.IdleTime) && o.Protocol == at(s, o.Protocol) && o.Strategy == at(s, o.Strategy) && o.tick == at(s, o.tick) && o.wheelSize == at(s, o.wheelSize)
}

// --- any list of options, in order
// The settings as the last option left them (each option may change all of them in any way).
ghost g_k int       // options applied so far
ghost g_Network seq
ghost g_Address seq
ghost g_NumLoops int
ghost g_ReusePort bool
ghost g_IdleTime int
ghost g_Protocol int
ghost g_Protocol_t int
ghost g_Strategy int
ghost g_tick int
ghost g_wheelSize int
ghost g_metricsPath seq
ghost g_metricsAddress seq
ghost g_n int
ghost g_arr int     // the list of options
spec settings(p) = str(p.Network) == g_Network && str(p.Address) == g_Address && p.NumLoops == g_NumLoops && p.ReusePort == g_ReusePort && p.IdleTime == g_IdleTime && ref(p.Protocol) == g_Protocol && tag(p.Protocol) == g_Protocol_t && ref(p.Strategy) == g_Strategy && p.tick == g_tick && p.wheelSize == g_wheelSize && str(p.metricsPath) == g_metricsPath && str(p.metricsAddress) == g_metricsAddress
uf optfn(1) int

model "dyn:func(*gev.Options)"(f, o) {
  assert "the options are applied in the given order": g_k < g_n && ref(f) == optfn(g_k)
  assert "each option sees what the previous ones set": settings(o)
  havoc o.*
  g_Network = str(o.Network)
  g_Address = str(o.Address)
  g_NumLoops = o.NumLoops
  g_ReusePort = o.ReusePort
  g_IdleTime = o.IdleTime
  g_Protocol = ref(o.Protocol)
  g_Protocol_t = tag(o.Protocol)
  g_Strategy = ref(o.Strategy)
  g_tick = o.tick
  g_wheelSize = o.wheelSize
  g_metricsPath = str(o.metricsPath)
  g_metricsAddress = str(o.metricsAddress)
  g_k = g_k + 1
}
loop "*" {
  invariant settings($v)
  invariant g_k == $i
  invariant forall j in 0..len(server.workLoops) : server.workLoops[j] != nil
}

proof C21_newOptions {
  sym opts : []gev.Option
  g_k = 0
  g_n = len(opts)
  g_Network = empty
  g_Address = empty
  g_NumLoops = 0
  g_ReusePort = false
  g_IdleTime = 0
  g_Protocol = 0
  g_Protocol_t = 0
  g_Strategy = 0
  g_tick = 0
  g_wheelSize = 0
  g_metricsPath = empty
  g_metricsAddress = empty
  assume forall i in 0..len(opts) : opts[i] != nil && ref(opts[i]) == optfn(i)
  run r = gev.newOptions(opts)
  assert "every option is applied exactly once": g_k == g_n
  assert "network: tcp unless set": str(r.Network) == (len(g_Network) == 0 ? str("tcp") : g_Network)
  assert "address: :1388 unless set": str(r.Address) == (len(g_Address) == 0 ? str(":1388") : g_Address)
  assert "tick: 1 ms unless set": r.tick == (g_tick == 0 ? 1000000 : g_tick)
  assert "wheel size: 1000 unless set": r.wheelSize == (g_wheelSize == 0 ? 1000 : g_wheelSize)
  assert "protocol: the default protocol unless set": g_Protocol_t == 0 ? istype(*gev.DefaultProtocol, r.Protocol) && ref(r.Protocol) != 0 : tag(r.Protocol) == g_Protocol_t && ref(r.Protocol) == g_Protocol
  assert "strategy: kept when set": g_Strategy != 0 ==> ref(r.Strategy) == g_Strategy
  assert "the other settings are kept": r.ReusePort == g_ReusePort && r.IdleTime == g_IdleTime && str(r.metricsPath) == g_metricsPath && str(r.metricsAddress) == g_metricsAddress
  assert "NumLoops is kept": r.NumLoops == g_NumLoops
  if g_Strategy == 0 {
    sym loops : []*eventloop.EventLoop
    assume len(loops) == 3
    let st = r.Strategy
    run l0 = st(loops)
    run l1 = st(loops)
    run l2 = st(loops)
    run l3 = st(loops)
    assert "strategy: round robin unless set (C08 proves RoundRobin for every number of loops)": l0 == loops[0] && l1 == loops[1] && l2 == loops[2] && l3 == loops[0]
  }
}

// --- the server uses the settings
ghost g_wheels int
ghost g_listens int
ghost g_loops int
ghost g_cpu int
model timingwheel.NewTimingWheel(tick, size)(w) {
  assert "the timing wheel gets the configured tick and size": tick == (g_tick == 0 ? 1000000 : g_tick) && size == (g_wheelSize == 0 ? 1000 : g_wheelSize)
  g_wheels = g_wheels + 1
  any w0 : *timingwheel.TimingWheel
  assume w0 != nil
  return w0
}
spec listen_args(network, addr) = str(network) == (len(g_Network) == 0 ? str("tcp") : g_Network) && str(addr) == (len(g_Address) == 0 ? str(":1388") : g_Address)
model net.Listen(network, addr)(l, err) {
  assert "listening on the configured network and address": listen_args(network, addr)
  assert "without SO_REUSEPORT unless set": !g_ReusePort
  g_listens = g_listens + 1
  any ls : net.Listener
  any e : error
  assume (e == nil) <==> (ls != nil)
  return ls, e
}
model reuseport.Listen(network, addr)(l, err) {
  assert "listening on the configured network and address": listen_args(network, addr)
  assert "with SO_REUSEPORT when set": g_ReusePort
  g_listens = g_listens + 1
  any ls : net.Listener
  any e : error
  assume (e == nil) <==> (ls != nil)
  return ls, e
}
model net.TCPListener.File(l)(f, err) {
  any f0 : *os.File
  any e : error
  assume (e == nil) <==> (f0 != nil)
  return f0, e
}
model eventloop.New()(l, err) {
  choose {
    new l0 : eventloop.EventLoop
    return l0, nil
  } or {
    any e : error
    assume e != nil
    return nil, e
  }
}
model eventloop.EventLoop.AddSocketAndEnableRead(l, fd, s)(err) {
  any e : error
  return e
}
model eventloop.EventLoop.Stop(l)(err) {
  any e : error
  return e
}
model runtime.NumCPU()(n) {
  assume g_cpu >= 1
  return g_cpu
}
assumption "runtime.NumCPU is at least 1"

proof C21_NewServer {
  sym h : gev.Handler
  sym opts : []gev.Option
  g_k = 0
  g_n = len(opts)
  g_Network = empty
  g_Address = empty
  g_NumLoops = 0
  g_ReusePort = false
  g_IdleTime = 0
  g_Protocol = 0
  g_Protocol_t = 0
  g_Strategy = 0
  g_tick = 0
  g_wheelSize = 0
  g_metricsPath = empty
  g_metricsAddress = empty
  assume forall i in 0..len(opts) : opts[i] != nil && ref(opts[i]) == optfn(i)
  g_wheels = 0
  g_listens = 0
  run server, err = gev.NewServer(h, opts)
  if h == nil {
    assert "a nil handler is refused": err != nil && server == nil
    assert "without side effects": g_listens == 0 && g_wheels == 0 && g_k == 0
    return
  }
  assert "either a server or an error": (server == nil) <==> (err != nil)
  if err == nil {
    run r = gev.Server.Options(server)
  assert "every option is applied exactly once": g_k == g_n
    assert "network: tcp unless set": str(r.Network) == (len(g_Network) == 0 ? str("tcp") : g_Network)
    assert "address: :1388 unless set": str(r.Address) == (len(g_Address) == 0 ? str(":1388") : g_Address)
    assert "tick: 1 ms unless set": r.tick == (g_tick == 0 ? 1000000 : g_tick)
    assert "wheel size: 1000 unless set": r.wheelSize == (g_wheelSize == 0 ? 1000 : g_wheelSize)
    assert "protocol: the default protocol unless set": g_Protocol_t == 0 ? istype(*gev.DefaultProtocol, r.Protocol) && ref(r.Protocol) != 0 : tag(r.Protocol) == g_Protocol_t && ref(r.Protocol) == g_Protocol
    assert "strategy: kept when set": g_Strategy != 0 ==> ref(r.Strategy) == g_Strategy
    assert "the other settings are kept": r.ReusePort == g_ReusePort && r.IdleTime == g_IdleTime && str(r.metricsPath) == g_metricsPath && str(r.metricsAddress) == g_metricsAddress
    assert "one wheel, one listener": g_wheels == 1 && g_listens == 1
    assert "the number of loops is the configured one, or the number of CPUs": len(server.workLoops) == (g_NumLoops <= 0 ? g_cpu : g_NumLoops)
    assert "the handler is the given one": server.callback == h
  }
}
