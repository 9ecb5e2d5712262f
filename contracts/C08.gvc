// C08: load balancing picks the promised loop.

// k mod n, by induction over the calls: it starts at 0 and steps to 0 after n-1.
proof C08_round_robin_first {
  sym loops : []*eventloop.EventLoop
  assume len(loops) > 0
  run f = gev.RoundRobin()
  run r = f(loops)
  assert "the first call returns the first loop": r == loops[0]
  assert "the position after the first call": *captured(f, 0) == (len(loops) == 1 ? 0 : 1)
}

proof C08_round_robin_step {
  sym loops : []*eventloop.EventLoop
  any p : int
  assume 0 <= p && p < len(loops)
  run f = gev.RoundRobin()
  *captured(f, 0) = p
  snap s
  let before = loops
  run r = f(loops)
  assert "call k returns loop k mod n": r == at(s, loops[p])
  assert "the next call returns loop (k+1) mod n": *captured(f, 0) == (p + 1 == len(loops) ? 0 : p + 1)
  assert "the loops are unchanged": forall i in 0..len(loops) : loops[i] == at(s, loops[i])
}

// pos(l): the first position of a loop in the list (introduced by the assumption in the proof)
uf pos(1) int
spec cnt(l) = l.ConnCunt.v
spec is_given(l, ls, n) = l != nil && 0 <= pos(l) && pos(l) < n && ls[pos(l)] == l
spec minimal(l, ls, n) = forall m in 0..n : cnt(l) <= cnt(ls[m])
spec first(l, ls, n) = forall m in 0..n : cnt(l) == cnt(ls[m]) ==> pos(l) <= m

// Candidates for every loop over a list: $i elements looked at, $i + 1 (a range loop), $i + 2 (over all but the first);
// the best so far kept as a loop ($p) or as a position ($j). Those that hold are kept.
loop "*" {
  invariant is_given($p, $s, max($i, 1))
  invariant minimal($p, $s, max($i, 1))
  invariant first($p, $s, max($i, 1))
  invariant is_given($p, $s, max($i + 1, 1))
  invariant minimal($p, $s, max($i + 1, 1))
  invariant first($p, $s, max($i + 1, 1))
  invariant is_given($p, $s, max($i + 2, 1))
  invariant minimal($p, $s, max($i + 2, 1))
  invariant first($p, $s, max($i + 2, 1))
  invariant $i == cnt($p)
  invariant $i > 0 || $p == nil
  invariant $i <= 0 || is_given($p, $s, $i)
  invariant $i <= 0 || minimal($p, $s, $i)
  invariant $i <= 0 || first($p, $s, $i)
  invariant 0 <= $j && $j < len($s) && is_given($s[$j], $s, max($i, 1))
  invariant 0 <= $j && $j < len($s) && minimal($s[$j], $s, max($i, 1))
  invariant 0 <= $j && $j < len($s) && first($s[$j], $s, max($i, 1))
  invariant 0 <= $j && $j < len($s) && $i == cnt($s[$j])
}

proof C08_least_connection {
  sym loops : []*eventloop.EventLoop
  assume len(loops) > 0
  assume forall i in 0..len(loops) : loops[i] != nil && 0 <= pos(loops[i]) && pos(loops[i]) <= i && loops[pos(loops[i])] == loops[i]
  run f = gev.LeastConnection()
  snap s
  run r = f(loops)
  assert "a loop of the list": is_given(r, loops, len(loops))
  assert "no given loop has fewer connections": minimal(r, loops, len(loops))
  assert "it is the first such loop": first(r, loops, len(loops))
  assert "the loops are unchanged": forall i in 0..len(loops) : loops[i] == at(s, loops[i]) && cnt(loops[i]) == at(s, cnt(loops[i]))
}
