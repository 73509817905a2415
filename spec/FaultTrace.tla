---------------------------- MODULE FaultTrace -----------------------------
(* Checks a recorded history of calls on a failing device against FaultIO. *)
EXTENDS FaultIO, Json, IOUtils
CONSTANT Aspects
VARIABLE l
Log == ndJsonDeserialize(IOEnv.VLOG)
tvars == <<l, size, w, r>>
Step(e) ==
    CASE e.op = "begin" -> size' = <<>> /\ w' = None /\ r' = None
      [] e.op = "ref" -> Reference(e.sizes)
      [] e.op = "arm" -> UNCHANGED vars
      [] e.op = "wopen" -> OpenWriter(e.res, e.fired)
      [] e.op = "wtrc" -> Write(e.res, e.stored, e.fired)
      [] e.op = "wclose" -> CloseWriter(e.stored, e.prefix, e.fired)
      [] e.op = "ropen" -> OpenReader(e.res, e.fired)
      [] e.op = "rtrc" -> Read(e.res, e.same, e.fired)
      [] e.op = "rclose" -> CloseReader
      [] OTHER -> FALSE
TInit == l = 1 /\ Init
TNext == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
