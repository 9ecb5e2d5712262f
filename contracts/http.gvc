// Parsing of HTTP request lines and headers: models of the library's searches, specifications, contracts.

// memory that is not the package's own tables
spec given(b) = 0 <= ref(b) && ref(b) < pow2(59)
spec blank(c) = c == 32 || c == 9
// p is the first position from lo on where s holds c, or len(s)
spec firstat(s, c, lo, p) = lo <= p && p <= len(s) && (forall k in lo..p : s[k] != c) && (p < len(s) ==> s[p] == c)
// s[i:j] is s[lo:hi] without surrounding blanks
spec trimmed(s, lo, hi, i, j) = lo <= i && i <= j && j <= hi && (forall k in lo..i : blank(s[k])) && (forall k in j..hi : blank(s[k])) && (i < j ==> !blank(s[i]) && !blank(s[j-1])) && (i == j ==> i == hi)
spec digit(c) = 48 <= c && c <= 57
spec digits(s, lo, hi) = forall k in lo..hi : digit(s[k])
spec upper(c) = 97 <= c && c <= 122 ? c - 32 : c
spec lower(c) = 65 <= c && c <= 90 ? c + 32 : c
spec canon(s, j) = (j == 0 || s[j-1] == 45) ? upper(s[j]) : lower(s[j])
spec version(s, o, d) = len(s) - o >= 8 && s[o] == 72 && s[o+1] == 84 && s[o+2] == 84 && s[o+3] == 80 && s[o+4] == 47 && o + 5 < d && d + 1 < len(s) && digits(s, o + 5, d) && digits(s, d + 1, len(s))
// the number written in s[lo:hi], of at most 18 digits
spec dg(s, lo, hi, j) = j < hi - lo ? s[hi-1-j] - 48 : 0
spec numval(s, lo, hi) = dg(s, lo, hi, 0) + 10 * dg(s, lo, hi, 1) + 100 * dg(s, lo, hi, 2) + 1000 * dg(s, lo, hi, 3) + 10000 * dg(s, lo, hi, 4) + 100000 * dg(s, lo, hi, 5) + 1000000 * dg(s, lo, hi, 6) + 10000000 * dg(s, lo, hi, 7) + 100000000 * dg(s, lo, hi, 8) + 1000000000 * dg(s, lo, hi, 9) + 10000000000 * dg(s, lo, hi, 10) + 100000000000 * dg(s, lo, hi, 11) + 1000000000000 * dg(s, lo, hi, 12) + 10000000000000 * dg(s, lo, hi, 13) + 100000000000000 * dg(s, lo, hi, 14) + 1000000000000000 * dg(s, lo, hi, 15) + 10000000000000000 * dg(s, lo, hi, 16) + 100000000000000000 * dg(s, lo, hi, 17)

assumption "bytes.IndexByte returns the first position of the byte, or -1"
model bytes.IndexByte(b, c)(i) {
  let s = bytes(b)
  any p : int
  assume firstat(s, c, 0, p)
  if p == len(s) {
    return -1
  }
  return p
}

contract ws.asciiToInt(b)(n, err) {
  split len(b) in 0..19
  let s = old(bytes(b))
  ensures len(s) <= 18 ==> (err == nil <==> len(s) > 0 && digits(s, 0, len(s)))
  ensures err == nil && len(s) <= 18 ==> n == numval(s, 0, len(s))
}

contract ws.btrim(b)(r) {
  let s = bytes(b)
  ensures ref(r) == ref(b) && (given(b) ==> given(r)) && trimmed(s, 0, len(s), off(r) - off(b), off(r) - off(b) + len(r))
}
loop ws.btrim {
  invariant forall k in 0..$i : blank($a0[k])
  invariant 0 <= $i && $i <= len($a0)
  invariant forall k in $i..len($a0) : blank($a0[k])
  invariant i <= $i
}

contract ws.canonicalizeHeaderKey(k)() {
  sets bytes(k) = seqfn(len(k), j, canon(old(bytes(k)), j))
}
loop ws.canonicalizeHeaderKey {
  invariant bytes($a0) == seqfn(len($a0), j, j < $i + 1 ? canon(entry(bytes($a0)), j) : entry(bytes($a0))[j])
  invariant bytes($a0) == seqfn(len($a0), j, j < $i ? canon(entry(bytes($a0)), j) : entry(bytes($a0))[j])
  invariant $b <==> ($i < 0 || entry(bytes($a0))[$i] == 45)
  invariant $b <==> ($i <= 0 || entry(bytes($a0))[$i-1] == 45)
}

// library functions a parser may use instead
model bytes.Index(b, sep)(i) {
  let s = bytes(b)
  any p : int
  if len(sep) == 1 {
    assume firstat(s, sep[0], 0, p)
  } else {
    assume 0 <= p && p <= len(s) && (p < len(s) ==> p + len(sep) <= len(s) && (len(sep) > 0 ==> s[p] == sep[0]))
  }
  if p == len(s) && len(sep) > 0 {
    return -1
  }
  return p
}
inline bytes.HasPrefix
inline bytes.HasSuffix
inline bytes.Cut
inline bytes.TrimPrefix
inline bytes.ContainsRune
inline bytes.Contains
