-------------------------------- MODULE Int64 --------------------------------
(* 64-bit two's complement integers as four 16-bit limbs, least significant   *)
(* first, and 32-bit ones as two: TLC's own integers are 32 bits wide.        *)
EXTENDS Integers, Sequences

B16 == 65536
Zero64 == << 0, 0, 0, 0 >>
MinusOne64 == << 65535, 65535, 65535, 65535 >>
Max64 == << 65535, 65535, 65535, 32767 >>
Min64 == << 0, 0, 0, 32768 >>

\* n >= 0
Nat64(n) == << n % B16, n \div B16, 0, 0 >>

Neg(a) == a[4] >= 32768

Add(a, b) ==
    LET s1 == a[1] + b[1]
        s2 == a[2] + b[2] + s1 \div B16
        s3 == a[3] + b[3] + s2 \div B16
        s4 == a[4] + b[4] + s3 \div B16
    IN  << s1 % B16, s2 % B16, s3 % B16, s4 % B16 >>

Not64(a) == << 65535 - a[1], 65535 - a[2], 65535 - a[3], 65535 - a[4] >>
Minus(a) == Add(Not64(a), Nat64(1))
Sub(a, b) == Add(a, Minus(b))

\* unsigned
ULess(a, b) == IF a[4] # b[4] THEN a[4] < b[4]
               ELSE IF a[3] # b[3] THEN a[3] < b[3]
               ELSE IF a[2] # b[2] THEN a[2] < b[2] ELSE a[1] < b[1]
\* signed
Flip(a) == [a EXCEPT ![4] = (@ + 32768) % B16]
Less(a, b) == ULess(Flip(a), Flip(b))
Leq(a, b) == ~Less(b, a)

\* a - b, clamped
SatSub(a, b) ==
    LET d == Sub(a, b)
    IN  IF (Neg(a) /\ ~Neg(b)) /\ ~Neg(d) THEN Min64
        ELSE IF (~Neg(a) /\ Neg(b)) /\ Neg(d) THEN Max64
        ELSE d

\* 32-bit
Add32(a, b) == LET s == a[1] + b[1] IN << s % B16, (a[2] + b[2] + s \div B16) % B16 >>
Sub32(a, b) == Add32(a, Add32(<< 65535 - b[1], 65535 - b[2] >>, << 1, 0 >>))
RECURSIVE Mul32(_, _)
Mul32(a, n) == IF n = 0 THEN << 0, 0 >> ELSE Add32(a, Mul32(a, n - 1))
=============================================================================
