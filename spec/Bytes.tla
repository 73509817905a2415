------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte- and bit-level arithmetic used by every format module.             *)
(*                                                                         *)
(* TLC's integers are 32 bits wide, so every value wider than that is kept *)
(* as a sequence of bytes, most significant first ("BE"), and an IEEE      *)
(* double is the BE sequence of the eight bytes of its bit pattern.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

P2 == [i \in 0..30 |-> 2^i]

Zeros(n) == [i \in 1..n |-> 0]

RevSeq(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

(* n bytes of f starting at 0-based offset o *)
Slice(f, o, n) == SubSeq(f, o + 1, o + n)

(* stored bytes -> most significant first *)
Norm(bs, little) == IF little THEN RevSeq(bs) ELSE bs

AllZero(bs) == \A i \in 1..Len(bs) : bs[i] = 0

(* two's complement negation of a BE byte string *)
Neg(bs) ==
    IF AllZero(bs) THEN bs
    ELSE LET j == CHOOSE k \in 1..Len(bs) :
                     bs[k] # 0 /\ \A m \in (k+1)..Len(bs) : bs[m] = 0
         IN [i \in 1..Len(bs) |-> IF i < j THEN 255 - bs[i]
                                  ELSE IF i = j THEN 256 - bs[i] ELSE 0]

SignExt(bs) ==
    LET p == IF bs[1] >= 128 THEN 255 ELSE 0
        d == 8 - Len(bs)
    IN [i \in 1..8 |-> IF i <= d THEN p ELSE bs[i - d]]

ZeroExt(bs) ==
    LET d == 8 - Len(bs) IN [i \in 1..8 |-> IF i <= d THEN 0 ELSE bs[i - d]]

(* eight BE bytes -> TLC integer, when it fits in 30 bits; otherwise a      *)
(* sentinel that no size or count can have                                  *)
TooBig == 1073741824
Fits(bs8) ==
    \/ (\A i \in 1..4 : bs8[i] = 0) /\ bs8[5] < 64
    \/ (\A i \in 1..4 : bs8[i] = 255) /\ bs8[5] >= 192
ToInt(bs8) ==
    IF ~Fits(bs8) THEN TooBig
    ELSE LET hi == IF bs8[5] >= 128 THEN bs8[5] - 256 ELSE bs8[5]
         IN ((hi * 256 + bs8[6]) * 256 + bs8[7]) * 256 + bs8[8]

(* unsigned value of up to three bytes *)
RECURSIVE U(_)
U(bs) == IF Len(bs) = 0 THEN 0
         ELSE U(SubSeq(bs, 1, Len(bs) - 1)) * 256 + bs[Len(bs)]
U2(a, b) == a * 256 + b
S2(a, b) == IF a >= 128 THEN a * 256 + b - 65536 ELSE a * 256 + b

(* small non-negative TLC integer -> n BE bytes *)
FromNat(v, n) == [i \in 1..n |-> IF n - i > 3 THEN 0
                                 ELSE (v \div P2[8 * (n - i)]) % 256]
FromInt8(v) == IF v >= 0 THEN FromNat(v, 8) ELSE Neg(FromNat(-v, 8))

-----------------------------------------------------------------------------
(* Bits, most significant first *)
Bits(bs) == [i \in 1..(8 * Len(bs)) |->
                (bs[(i - 1) \div 8 + 1] \div P2[7 - ((i - 1) % 8)]) % 2]
UnBits(b) == [i \in 1..(Len(b) \div 8) |->
                LET o == 8 * (i - 1)
                IN 128*b[o+1] + 64*b[o+2] + 32*b[o+3] + 16*b[o+4]
                   + 8*b[o+5] + 4*b[o+6] + 2*b[o+7] + b[o+8]]
(* index of the first 1, or 0 *)
Lead(b) == IF \A i \in 1..Len(b) : b[i] = 0 THEN 0
           ELSE CHOOSE i \in 1..Len(b) :
                    b[i] = 1 /\ \A j \in 1..(i-1) : b[j] = 0
(* magnitude bits + 1, same length; carry out is dropped *)
Inc(b) == IF \A i \in 1..Len(b) : b[i] = 1 THEN Zeros(Len(b))
          ELSE LET j == CHOOSE k \in 1..Len(b) :
                        b[k] = 0 /\ \A m \in (k+1)..Len(b) : b[m] = 1
               IN [i \in 1..Len(b) |-> IF i < j THEN b[i]
                                       ELSE IF i = j THEN 1 ELSE 0]
AllOnes(b) == \A i \in 1..Len(b) : b[i] = 1
NatBits(v, n) == [i \in 1..n |-> (v \div P2[n - i]) % 2]
RECURSIVE BitsNat(_)
BitsNat(b) == IF Len(b) = 0 THEN 0
              ELSE 2 * BitsNat(SubSeq(b, 1, Len(b) - 1)) + b[Len(b)]

(* round the bits b to n bits, nearest, ties to even.  Result: <<bits, carry>> *)
RoundBits(b, n) ==
    IF Len(b) <= n THEN <<b \o Zeros(n - Len(b)), 0>>
    ELSE LET keep == SubSeq(b, 1, n)
             rest == SubSeq(b, n + 1, Len(b))
             up == /\ rest[1] = 1
                   /\ \/ \E i \in 2..Len(rest) : rest[i] = 1
                      \/ n > 0 /\ keep[n] = 1
         IN IF ~up THEN <<keep, 0>>
            ELSE IF AllOnes(keep) THEN <<Zeros(n), 1>>
            ELSE <<Inc(keep), 0>>

-----------------------------------------------------------------------------
(* IEEE doubles *)
DblZero == Zeros(8)
DblSign(x) == x[1] \div 128
DblExp(x) == (x[1] % 128) * 16 + x[2] \div 16        \* biased
DblFrac(x) == SubSeq(Bits(x), 13, 64)
IsZeroDbl(x) == x[1] % 128 = 0 /\ \A i \in 2..8 : x[i] = 0
IsNaN(x) == DblExp(x) = 2047 /\ ~(x[2] % 16 = 0 /\ \A i \in 3..8 : x[i] = 0)

(* equal as numbers; any NaN stands for any NaN, the sign of 0 is free *)
SameDbl(a, b) == a = b \/ (IsZeroDbl(a) /\ IsZeroDbl(b))
                       \/ (IsNaN(a) /\ IsNaN(b))

PackDbl(s, e, frac) == UnBits(<<s>> \o NatBits(e, 11) \o frac)

(* (-1)^s * m * 2^e2 for the magnitude bits m (any length), rounded to     *)
(* nearest even; the exponent is assumed to be in the normal range         *)
DblFromBits(s, m, e2) ==
    LET k == Lead(m) IN
    IF k = 0 THEN [DblZero EXCEPT ![1] = 128 * s]
    ELSE LET rest == SubSeq(m, k + 1, Len(m))
             r == RoundBits(rest, 52)
         IN PackDbl(s, Len(rest) + e2 + 1023 + r[2], r[1])

(* Same for a magnitude below 2^24 given as a TLC integer, without bit     *)
(* sequences: the case of nearly every sample format                       *)
RECURSIVE Log2(_)
Log2(v) == IF v >= 65536 THEN 16 + Log2(v \div 65536)
           ELSE IF v >= 256 THEN 8 + Log2(v \div 256)
           ELSE IF v >= 16 THEN 4 + Log2(v \div 16)
           ELSE IF v >= 4 THEN 2 + Log2(v \div 4)
           ELSE IF v >= 2 THEN 1 ELSE 0
DblFrom24(s, m, e2) ==
    IF m = 0 THEN [DblZero EXCEPT ![1] = 128 * s]
    ELSE LET k == Log2(m)
             e == k + e2 + 1023
             f == (m - P2[k]) * P2[23 - k]       \* 23 fraction bits
         IN << 128 * s + e \div 16,
               (e % 16) * 16 + f \div P2[19],
               (f \div P2[11]) % 256,
               (f \div 8) % 256,
               (f % 8) * 32, 0, 0, 0 >>

(* integers *)
IntDbl(bs, signed) ==
    LET neg == signed /\ bs[1] >= 128
        mag == IF neg THEN Neg(bs) ELSE bs
        s == IF neg THEN 1 ELSE 0
    IN IF Len(bs) <= 3 THEN DblFrom24(s, U(mag), 0)
       ELSE DblFromBits(s, Bits(mag), 0)

(* IEEE single, BE bytes *)
SingleDbl(bs) ==
    LET s == bs[1] \div 128
        e == (bs[1] % 128) * 2 + bs[2] \div 128
        f == (bs[2] % 128) * 65536 + bs[3] * 256 + bs[4]
    IN IF e = 255 THEN
            IF f = 0 THEN <<128 * s + 127, 240, 0, 0, 0, 0, 0, 0>>
                     ELSE <<128 * s + 127, 248, 0, 0, 0, 0, 0, 0>>
       ELSE IF e = 0 THEN DblFrom24(s, f, -149)
       ELSE DblFrom24(s, f + P2[23], e - 150)

(* IBM/360 single: fraction * 2^-24 * 16^(exp-64) *)
IbmDbl(bs) ==
    DblFrom24(bs[1] \div 128, bs[2] * 65536 + bs[3] * 256 + bs[4],
              4 * ((bs[1] % 128) - 64) - 24)

-----------------------------------------------------------------------------
(* The other direction: what a stored field must hold, given a double      *)

(* integer part of a double, toward zero, as w BE bytes two's complement   *)
DblToInt(x, w) ==
    LET e == DblExp(x) - 1023
        sig == <<1>> \o DblFrac(x)
        n == e + 1
        ib == IF n <= 53 THEN SubSeq(sig, 1, n) ELSE sig \o Zeros(n - 53)
        pad == IF n >= 8 * w THEN SubSeq(ib, n - 8 * w + 1, n)
               ELSE Zeros(8 * w - n) \o ib
        mag == UnBits(pad)
    IN IF DblExp(x) = 0 \/ e < 0 THEN Zeros(w)
       ELSE IF DblSign(x) = 1 THEN Neg(mag) ELSE mag

(* the IEEE single nearest to a double (ties to even) *)
DblToSingle(x) ==
    LET s == DblSign(x)
        e == DblExp(x) - 1023
        inf == <<128 * s + 127, 128, 0, 0>>
        mk(be, f) == <<128 * s + be \div 2, (be % 2) * 128 + f \div 65536,
                       (f \div 256) % 256, f % 256>>
    IN IF IsNaN(x) THEN <<128 * s + 127, 192, 0, 0>>
       ELSE IF DblExp(x) = 2047 \/ e > 127 THEN inf
       ELSE IF DblExp(x) = 0 \/ e < -150 THEN mk(0, 0)
       ELSE IF e >= -126 THEN
            LET r == RoundBits(DblFrac(x), 23)
                be == e + 127 + r[2]
            IN IF be >= 255 THEN inf ELSE mk(be, BitsNat(r[1]))
       ELSE \* subnormal: value = sig * 2^(e-52), unit 2^-149
            LET sig == <<1>> \o DblFrac(x)          \* 53 bits
                n == e + 150                         \* integer bits, 0..23
                r == RoundBits(Zeros(1) \o sig, n + 1)
                v == BitsNat(r[1])
            IN mk(v \div P2[23], v % P2[23])
SingleNaN(bs) == bs[1] % 128 = 127 /\ bs[2] >= 128
                 /\ ~(bs[2] = 128 /\ bs[3] = 0 /\ bs[4] = 0)
EncSingleOK(x, bs) ==
    IF IsNaN(x) THEN SingleNaN(bs)
    ELSE \/ bs = DblToSingle(x)
         \/ IsZeroDbl(x) /\ bs[1] % 128 = 0 /\ bs[2] = 0 /\ bs[3] = 0
                         /\ bs[4] = 0

(* IBM: the normalised fraction, cut or rounded up by one unit; exact when *)
(* the value has no more than the 24 fraction bits                         *)
EncIbmOK(x, bs) ==
    LET e == DblExp(x) - 1023
        h == (e + 4 + 1200) \div 4 - 300     \* hex exponent: floor(e/4)+1
        sh == e - 4 * h + 24                 \* 20..23
        sig == <<1>> \o DblFrac(x)
        t == BitsNat(SubSeq(sig, 1, sh + 1))
        exact == \A i \in (sh + 2)..53 : sig[i] = 0
        f == bs[2] * 65536 + bs[3] * 256 + bs[4]
        be == (bs[1] % 128)
    IN IF IsZeroDbl(x) THEN f = 0
       ELSE IF DblExp(x) = 0 \/ h + 64 < 0 THEN f = 0  \* below range
       ELSE IF h + 64 > 127 THEN TRUE             \* above range: unspecified
       ELSE /\ bs[1] \div 128 = DblSign(x)
            /\ \/ be = h + 64 /\ f = t
               \/ ~exact /\ IF t + 1 = P2[24]
                            THEN be = h + 65 /\ f = P2[20]
                            ELSE be = h + 64 /\ f = t + 1

-----------------------------------------------------------------------------
(* Orderings on eight BE bytes *)
RECURSIVE LexLess(_, _, _)
LexLess(a, b, i) == IF i > 8 THEN FALSE
                    ELSE IF a[i] # b[i] THEN a[i] < b[i]
                    ELSE LexLess(a, b, i + 1)
IntLess(a, b) ==
    LET na == a[1] >= 128 nb == b[1] >= 128
    IN IF na # nb THEN na ELSE LexLess(a, b, 1)
DblLess(a, b) ==
    LET na == a[1] >= 128 nb == b[1] >= 128
    IN IF IsZeroDbl(a) /\ IsZeroDbl(b) THEN FALSE
       ELSE IF na # nb THEN na
       ELSE IF na THEN LexLess(b, a, 1) ELSE LexLess(a, b, 1)
=============================================================================
