include "rfc.gvc"

contract ws.PeekHeader(bts, b)(h, size, err) {
  requires ring(b) && ref(b.buf) != 0
  requires ref(bts) != ref(b.buf)
  havocs bytes(bts[0:cap(bts)])
  let s = old(content(b))
  let short = len(s) < 2 || len(s) < hsize(s[1])
  let big = s[1] % 128 == 127 && s[2] >= 128
  let e = 2 + ext(s[1])
  ensures (err == ws.ErrHeaderNotReady) <==> short
  ensures !short ==> (err == nil <==> !big)
  ensures err == nil ==> size == hsize(s[1]) && h.Fin == (s[0] >= 128) && h.Rsv == s[0] / 16 % 8 && h.OpCode == s[0] % 16 && h.Masked == (s[1] >= 128)
  ensures err == nil ==> h.Length == (s[1] % 128 < 126 ? s[1] % 128 : (s[1] % 128 == 126 ? 256 * s[2] + s[3] : be64(s, 2)))
  ensures err == nil && h.Masked ==> h.Mask[0] == s[e] && h.Mask[1] == s[e+1] && h.Mask[2] == s[e+2] && h.Mask[3] == s[e+3]
  ensures err == nil && !h.Masked ==> h.Mask[0] == 0 && h.Mask[1] == 0 && h.Mask[2] == 0 && h.Mask[3] == 0
}
