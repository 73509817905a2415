----------------------------- MODULE HugeTrace ------------------------------
(* Checks a recorded history of calls on files of GiBs against HugeIO.     *)
EXTENDS HugeIO, Json, IOUtils
CONSTANT Aspects
VARIABLE l
Log == ndJsonDeserialize(IOEnv.VLOG)
tvars == <<l, files, rd>>
Step(e) ==
    CASE e.op = "begin" -> files' = <<>> /\ rd' = <<>>
      [] e.op = "sparse" -> Create(e.f, e.lay, e.size)
      [] e.op = "ropen" -> /\ OpenReader(e.h, e.f, e)
                           /\ "trl" \in DOMAIN e => TrailerOK(e.f, e.trl)
      [] e.op = "sopen" -> OpenSorted(e.h, e.f, e) /\ TrailerOK(e.f, e.trl)
      [] e.op = "has" -> Has(e.h, IF "trc" \in DOMAIN e THEN e.trc ELSE e.res)
      [] e.op = "rhdr" -> ReadHeader(e.h, e)
      [] e.op = "rtrc" -> ReadTrace(e.h, e)
      [] e.op = "skip" -> Skip(e.h, e)
      [] e.op = "keys" -> Keys(e.h, e)
      [] e.op = "geth" -> GetHeaders(e.h, e.v, e)
      [] e.op = "gett" -> GetTraces(e.h, e.v, e)
      [] e.op = "rclose" -> Close(e.h)
      [] OTHER -> FALSE
TInit == l = 1 /\ Init
TNext == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
