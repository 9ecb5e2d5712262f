// C15: masking XORs every byte with the right key byte.

include "cipher.gvc"

// the masking going on: its key, and what to add to a byte's place in memory to get its position
ghost g_key seq
ghost g_kb int
model ws.Cipher(p, m, o)() {
  g_key = seqfn(4, k, m[k])
  g_kb = o - off(p)
  run ws.Cipher(p, m, o)
}
spec masked(p, lo, hi) = bytes(p) == seqfn(len(p), k, lo <= k && k < hi ? entry(bytes(p))[k] ^ keybyte(g_key, g_kb + off(p) + k) : entry(bytes(p))[k])

// Candidate invariants, tried on every slice in every loop; those that hold are kept.
loop "*" {
  invariant masked($s, entry($i), $i)
  invariant ($i - entry($i)) % 8 == 0
  invariant masked($s, 0, 8 * $i)
  invariant masked($s, 1, 1 + 8 * $i)
  invariant masked($s, 2, 2 + 8 * $i)
  invariant masked($s, 3, 3 + 8 * $i)
}

proof C15_cipher {
  sym payload : []byte
  sym mask : [4]byte
  sym offset : int
  assume offset >= 0 && offset + len(payload) <= maxint
  fork r in 0..4
  assume offset % 4 == r
  let before = bytes(payload)
  call ws.Cipher(payload, mask, offset)
  assert "each byte is XORed with the key byte at its position": forall i in 0..len(before) : bytes(payload)[i] == before[i] ^ keybyte(mask, offset + i)
}
