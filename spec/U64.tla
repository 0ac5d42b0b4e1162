-------------------------------- MODULE U64 --------------------------------
(* Unsigned 64-bit machine values.  TLC integers are 32-bit, so a value is a *)
(* triple of limbs <<16 bits, 24 bits, 24 bits>>, most significant first.    *)
EXTENDS Integers, Sequences

B16 == 65536
B24 == 16777216

U0 == <<0, 0, 0>>
U(n) == <<0, n \div B24, n % B24>>                 \* 0 <= n < 2^31

Add(x, y) ==                                       \* modulo 2^64
  LET c == x[3] + y[3]
      b == x[2] + y[2] + c \div B24
      t == x[1] + y[1] + b \div B24
  IN <<t % B16, b % B24, c % B24>>

Lt(x, y) == \/ x[1] < y[1]
            \/ x[1] = y[1] /\ x[2] < y[2]
            \/ x[1] = y[1] /\ x[2] = y[2] /\ x[3] < y[3]
Le(x, y) == x = y \/ Lt(x, y)

Sub(x, y) ==                                       \* defined for y <= x
  LET c == x[3] - y[3]
      b == x[2] - y[2] - (IF c < 0 THEN 1 ELSE 0)
      t == x[1] - y[1] - (IF b < 0 THEN 1 ELSE 0)
  IN <<t, b % B24, c % B24>>

IsSmall(x) == x[1] = 0 /\ x[2] < 128               \* fits a TLC natural
Nat32(x) == x[2] * B24 + x[3]                      \* defined when IsSmall(x)
IsU32(x) == x[1] = 0 /\ x[2] < 256

(* a multiple of 2^k, 0 <= k <= 63 *)
Aligned(x, k) ==
  IF k < 0 \/ k > 63 THEN FALSE
  ELSE IF k <= 24 THEN x[3] % (2^k) = 0
  ELSE IF k <= 48 THEN x[3] = 0 /\ x[2] % (2^(k - 24)) = 0
  ELSE x[3] = 0 /\ x[2] = 0 /\ x[1] % (2^(k - 48)) = 0

Round(x, k) ==                                     \* round up, 0 <= k <= 24
  LET r == x[3] % (2^k) IN IF r = 0 THEN x ELSE Add(x, U(2^k - r))

(* the low 32 bits of x, read as a signed number, as a 64-bit value *)
Sext32(x) == LET m == x[2] % 256
             IN IF m >= 128 THEN <<65535, 16776960 + m, x[3]>> ELSE <<0, m, x[3]>>
Minus4 == <<65535, 16777215, 16777212>>
=============================================================================
