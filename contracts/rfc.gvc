// WebSocket frame headers (RFC 6455 section 5.2).

spec legal(h) = 0 <= h.Rsv && h.Rsv <= 7 && 0 <= h.OpCode && h.OpCode <= 15 && 0 <= h.Length
// what a header says about its own size: mask bit and the 7-bit length
spec hsize(b1) = 2 + (b1 % 128 == 126 ? 2 : (b1 % 128 == 127 ? 8 : 0)) + (b1 >= 128 ? 4 : 0)
spec ext(b1) = b1 % 128 == 126 ? 2 : (b1 % 128 == 127 ? 8 : 0)
spec be64(s, o) = 72057594037927936 * s[o] + 281474976710656 * s[o+1] + 1099511627776 * s[o+2] + 4294967296 * s[o+3] + 16777216 * s[o+4] + 65536 * s[o+5] + 256 * s[o+6] + s[o+7]
