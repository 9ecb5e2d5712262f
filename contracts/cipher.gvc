// The masking function of the ws package (RFC 6455 section 5.3): specification and loop invariants.

spec ite3(j, m) = j == 0 ? m[0] : (j == 1 ? m[1] : (j == 2 ? m[2] : m[3]))
spec keybyte(m, k) = ite3(k % 4, m)

