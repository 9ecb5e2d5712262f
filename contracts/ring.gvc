// The ring buffers of the ringbuffer package: representation invariant, content, and the contracts of the operations the
// connection uses, each verified against the package's own source.

spec ring(b) = b.size == len(b.buf) && (b.isEmpty ==> b.r == b.w) && b.vr == b.r && (b.size == 0 ==> b.isEmpty && b.r == 0 && b.w == 0) && (b.size > 0 ==> 0 <= b.r && b.r < b.size && 0 <= b.w && b.w < b.size)
spec rlen(b) = b.w == b.r ? (b.isEmpty ? 0 : b.size) : (b.w > b.r ? b.w - b.r : b.size - b.r + b.w)
spec rat(b, k) = b.buf[b.r + k < b.size ? b.r + k : b.r + k - b.size]
spec content(b) = seqfn(rlen(b), k, rat(b, k))

contract ringbuffer.RingBuffer.Write(b, p)(n, err) {
  requires ring(b)
  requires ref(p) != ref(b.buf) || ref(p) == 0
  requires b.size + len(p) < maxint
  let L = old(rlen(b))
  let S = old(b.size)
  let W = old(b.w)
  let R = old(b.r)
  let m = old(len(p))
  let m1 = (W >= R && S - W < m) ? S - W : m
  case m > S - L {
    makes b.buf = L + m
    sets bytes(b.buf[0:L]) = old(content(b))
    sets bytes(b.buf[L:L+m]) = old(bytes(p))
    sets b.size = L + m
    sets b.r = 0
    sets b.vr = 0
    sets b.w = 0
    sets b.isEmpty = false
  } else {
    sets bytes(b.buf[W:W+m1]) = old(bytes(p[0:m1]))
    sets bytes(b.buf[0:m-m1]) = old(bytes(p[m1:m]))
    sets b.w = m1 < m ? m - m1 : (W + m == S ? 0 : W + m)
    sets b.isEmpty = old(b.isEmpty) && m == 0
  }
  ensures n == m && err == nil
}

contract ringbuffer.RingBuffer.Length(b)(n) {
  requires ring(b)
  ensures n == rlen(b)
}

contract ringbuffer.RingBuffer.Retrieve(b, n) {
  requires ring(b)
  let L = old(rlen(b))
  let some = n > 0 && !old(b.isEmpty)
  let part = n < L
  let r1 = old(b.r) + n
  let r2 = some ? (part ? (r1 < old(b.size) ? r1 : r1 - old(b.size)) : 0) : old(b.r)
  sets b.r = r2
  sets b.vr = r2
  sets b.w = some && !part ? 0 : old(b.w)
  sets b.isEmpty = old(b.isEmpty) || (some && !part)
}

contract ringbuffer.RingBuffer.Read(b, p)(n, err) {
  requires ring(b)
  requires ref(p) != ref(b.buf) || ref(p) == 0
  let L = old(rlen(b))
  let m = len(p) < L ? len(p) : L
  let r1 = old(b.r) + m
  let r2 = m == 0 ? old(b.r) : (r1 < old(b.size) ? r1 : r1 - old(b.size))
  sets bytes(p[0:m]) = sub(old(content(b)), 0, m)
  sets b.r = r2
  sets b.vr = r2
  sets b.isEmpty = old(b.isEmpty) || m == L
  ensures n == m
  ensures m > 0 ==> err == nil
}
