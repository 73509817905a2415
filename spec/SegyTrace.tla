----------------------------- MODULE SegyTrace -----------------------------
(***************************************************************************)
(* Checks a recorded history of library calls against SegyIO: there must   *)
(* be one behaviour of SegyIO with exactly these calls and results.        *)
(***************************************************************************)
EXTENDS SegyIO, SegyDefaults, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.VLOG)
VARIABLE l
M(e) == IF e.dm THEN DefaultMaps ELSE e.maps
tvars == <<l, disk, rd, wr, wrote>>


Step(e) ==
    CASE e.op = "begin" -> /\ disk' = <<>> /\ rd' = <<>> /\ wr' = <<>>
                           /\ wrote' = <<>>
      [] e.op = "file" -> CreateFile(e.f, e.b)
      [] e.op \in {"has", "rhdr", "rtrc", "rclose", "keys", "geth", "gett"} /\ e.h \notin DOMAIN rd -> Lost(e.h)
      [] e.op = "ropen" -> OpenReader(e.h, e.f, M(e), e.hasovr, e.ovr, e)
      [] e.op = "sopen" -> OpenSorted(e.h, e.f, e.key, M(e), e.hasovr,
                                      e.ovr, e)
      [] e.op = "rbin" -> ReadBinary(e.f, e)
      [] e.op = "has" -> Has(e.h, e) /\ DrainOK(e.h) = TRUE
      [] e.op = "rhdr" -> ReadHeader(e.h, e)
      [] e.op = "rtrc" -> ReadTrace(e.h, e)
      [] e.op = "rclose" -> CloseReader(e.h)
      [] e.op = "keys" -> Keys(e.h, e)
      [] e.op = "geth" -> GetHeaders(e.h, e.v, e.max, e)
      [] e.op = "gett" -> GetTraces(e.h, e.v, e.max, e)
      [] e.op = "wopen" -> OpenWriter(e.h, e.f, e.rev, e.texts, e.bh, e.trls,
                                      M(e), e)
      [] e.op = "wtrc" -> WriteTrace(e.h, [hdr |-> e.hdr, smp |-> e.smp], e)
      [] e.op = "wclose" -> CloseWriter(e.h, e.b)
      [] OTHER -> FALSE      \* "crash", "hang": nothing allows them

TInit == l = 1 /\ Init
TNext == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Log)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
