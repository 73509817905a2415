----------------------------- MODULE UtilTrace -----------------------------
(***************************************************************************)
(* Checks a recorded history of calls on traces, headers, exceptions, the  *)
(* packed decimal codec and the code page conversion.                      *)
(***************************************************************************)
EXTENDS Values, Codepage, Bcd, Names, Json, IOUtils

CONSTANT Aspects
VARIABLES l, buf, pos
Log == ndJsonDeserialize(IOEnv.VLOG)
tvars == <<l, obj, buf, pos>>

Obs(c) == c = TRUE /\ UNCHANGED <<obj, buf, pos>>
OnObj(a) == a /\ UNCHANGED <<buf, pos>>

(* "FILE LINE TEXT" *)
Message(e) == e.file \o <<32>> \o e.line \o <<32>> \o e.text

Step(e) ==
    CASE e.op = "begin" -> obj' = <<>> /\ buf' = <<>> /\ pos' = 0
      [] e.op = "tnew" -> OnObj(New(e.h, [k |-> "T", hdr |-> e.hdr,
                                          smp |-> e.smp]))
      [] e.op = "hnew" -> OnObj(New(e.h, [k |-> "H", hdr |-> e.hdr]))
      [] e.op = "enew" -> OnObj(New(e.h, [k |-> "E", msg |-> Message(e)]))
      [] e.op = "del" -> OnObj(Destroy(e.h))
      [] e.op \in {"cpy", "asg", "throw"} -> OnObj(CopyTo(e.h, e.g))
      [] e.op \in {"mov", "mas"} -> OnObj(MoveTo(e.h, e.g))
      [] e.op = "swp" -> OnObj(Swap(e.h, e.g))
      [] e.op = "rot" -> OnObj(Rotate(e.hs, e.by))
      [] e.op = "set" -> OnObj(Set(e.h, e.key, e.v))
      [] e.op = "hof" -> OnObj(HeaderOf(e.h, e.g))
      [] e.op = "hset" -> OnObj(SetHeader(e.h, e.g, e.move))
      [] e.op = "get" -> Obs(GetOK(e.h, e.key, e.has, e.v))
      [] e.op = "keys" -> Obs(KeysOK(e.h, e.keys))
      [] e.op = "look" -> Obs(LookOK(e.h, e.hdr, e.smp))
      [] e.op \in {"what", "hold", "held"} -> Obs(WhatOK(e.h, e.msg))
      [] e.op \in {"name", "desc"} -> Obs(Describes(e.s, e.e, e.w))
      [] e.op = "a2e" -> Obs(e.res = A2E(e.b))
      [] e.op = "e2a" -> Obs(e.res = E2A(e.b))
      [] e.op = "buf" -> /\ buf' = e.b /\ pos' = 0 /\ UNCHANGED obj
      [] e.op = "seek" -> /\ pos' = e.p /\ UNCHANGED <<obj, buf>>
      [] e.op = "put" -> /\ PutOK(buf, e.b, pos, Digits(e.v, e.n)) = TRUE
                         /\ e.adv = (pos + e.n) \div 2 - pos \div 2
                         /\ buf' = e.b /\ pos' = pos + e.n
                         /\ UNCHANGED obj
      [] e.op = "bget" -> /\ (e.v = GetVal(buf, pos, e.n)) = TRUE
                          /\ e.adv = (pos + e.n) \div 2 - pos \div 2
                          /\ pos' = pos + e.n /\ UNCHANGED <<obj, buf>>
      [] e.op = "rev" -> Obs(e.res = RevSeq(e.b))
      [] e.op = "rw" -> Obs(e.res = e.b /\ e.adv = <<Len(e.b), Len(e.b)>>)
      [] e.op = "ceil" -> Obs(e.res = -((-e.num) \div e.den))
      [] OTHER -> FALSE

TInit == l = 1 /\ obj = <<>> /\ buf = <<>> /\ pos = 0
TNext == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Log)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
