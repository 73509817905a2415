------------------------------- MODULE Fields -------------------------------
(***************************************************************************)
(* Trace header fields, common to SEG-Y and SEG-D.                         *)
(*                                                                         *)
(* A header value is <<k, b1..b8>>: k = 0 for a signed 64-bit integer,     *)
(* k = 1 for a double.                                                     *)
(***************************************************************************)
EXTENDS Bytes

TypeSize(t) == CASE t \in {"int8", "uint8"} -> 1
                 [] t \in {"int16", "uint16"} -> 2
                 [] t \in {"int24", "uint24"} -> 3
                 [] t \in {"int32", "uint32", "ibm", "ieee_single"} -> 4
                 [] t \in {"int64", "uint64", "ieee_double"} -> 8
FloatTypes == {"ibm", "ieee_single", "ieee_double"}
SignedTypes == {"int8", "int16", "int24", "int32", "int64"}

DecField(t, bs) ==
    CASE t = "ibm" -> <<1>> \o IbmDbl(bs)
      [] t = "ieee_single" -> <<1>> \o SingleDbl(bs)
      [] t = "ieee_double" -> <<1>> \o bs
      [] t \in SignedTypes -> <<0>> \o SignExt(bs)
      [] OTHER -> <<0>> \o ZeroExt(bs)

SameVal(a, b) == IF a[1] = 1 /\ b[1] = 1 THEN SameDbl(Tail(a), Tail(b))
                 ELSE a = b

(* a header value seen as a double / as an integer of w bytes *)
ValDbl(v) == IF v[1] = 1 THEN Tail(v) ELSE IntDbl(Tail(v), TRUE)
ValInt(v, w) == IF v[1] = 1 THEN DblToInt(Tail(v), w)
                ELSE SubSeq(v, 10 - w, 9)

EncFieldOK(t, v, bs) ==
    CASE t = "ibm" -> EncIbmOK(ValDbl(v), bs)
      [] t = "ieee_single" -> EncSingleOK(ValDbl(v), bs)
      [] t = "ieee_double" -> SameDbl(ValDbl(v), bs)
      [] OTHER -> bs = ValInt(v, Len(bs))
=============================================================================
