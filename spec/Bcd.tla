-------------------------------- MODULE Bcd --------------------------------
(***************************************************************************)
(* The packed decimal codec: a buffer is a stream of half bytes, a cursor  *)
(* stands before one of them.  Put writes the decimal digits of a value at *)
(* the cursor, most significant first, Get reads them back.                *)
(***************************************************************************)
EXTENDS Bytes

Nib(buf, k) == IF k % 2 = 0 THEN buf[k \div 2 + 1] \div 16
               ELSE buf[k \div 2 + 1] % 16

(* decimal digits of eight BE bytes, read as an unsigned number, least     *)
(* significant first: n of them                                            *)
RECURSIVE DivMod10(_, _, _, _)
DivMod10(bs, i, rem, acc) ==
    IF i > Len(bs) THEN <<acc, rem>>
    ELSE LET v == rem * 256 + bs[i]
         IN DivMod10(bs, i + 1, v % 10, Append(acc, v \div 10))
RECURSIVE DigitsR(_, _)
DigitsR(bs, n) == IF n = 0 THEN <<>>
                  ELSE LET q == DivMod10(bs, 1, 0, <<>>)
                       IN Append(DigitsR(q[1], n - 1), q[2])
(* most significant first *)
Digits(bs, n) == DigitsR(bs, n)

(* bs * 10 + d, on eight BE bytes, dropping the carry *)
RECURSIVE Mul10(_, _, _)
Mul10(bs, i, carry) ==
    IF i = 0 THEN bs
    ELSE LET v == bs[i] * 10 + carry
         IN Mul10([bs EXCEPT ![i] = v % 256], i - 1, v \div 256)
RECURSIVE FromDigits(_, _, _)
FromDigits(ds, i, acc) ==
    IF i > Len(ds) THEN acc
    ELSE FromDigits(ds, i + 1, Mul10(acc, Len(acc), ds[i]))

(* what the buffer must be after n digits ds were put at half byte p: the  *)
(* digits themselves, and everything before them and in the bytes after    *)
(* them as it was.  The second half of a byte begun is free until it is    *)
(* written.                                                                *)
PutOK(old, new, p, ds) ==
    LET n == Len(ds)
        last == p + n - 1 IN
    /\ Len(new) = Len(old)
    /\ \A k \in 0..(2 * Len(old) - 1) :
          IF k >= p /\ k <= last THEN Nib(new, k) = ds[k - p + 1]
          ELSE IF k = last + 1 /\ k % 2 = 1 THEN TRUE
          ELSE Nib(new, k) = Nib(old, k)
(* the digits found there, non-decimal ones counted at their value *)
GetVal(buf, p, n) ==
    FromDigits([i \in 1..n |-> Nib(buf, p + i - 1)], 1, Zeros(8))
=============================================================================
