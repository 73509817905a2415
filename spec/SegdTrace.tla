----------------------------- MODULE SegdTrace -----------------------------
(***************************************************************************)
(* Checks a recorded history of library calls against SegdIO.              *)
(***************************************************************************)
EXTENDS SegdIO, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.VLOG)
VARIABLE l
tvars == <<l, disk, rd, wr, wrote>>
M(e) == CASE e.mn = "Sercel428xl" -> Sercel428xl
          [] e.mn = "Sercel428" -> Sercel428
          [] e.mn = "Sercel408" -> Sercel408
          [] OTHER -> e.maps

Step(e) ==
    CASE e.op = "begin" -> /\ disk' = <<>> /\ rd' = <<>> /\ wr' = <<>>
                           /\ wrote' = <<>>
      [] e.op = "file" -> CreateFile(e.f, e.b)
      [] e.op \in {"st", "has", "rtrc", "rclose"} /\ e.h \notin DOMAIN rd -> Lost(e.h)
      [] e.op = "ropen" -> OpenReader(e.h, e.f, M(e), e)
      [] e.op = "st" -> Snapshot(e.h, e)
      [] e.op = "has" -> Has(e.h, e)
      [] e.op = "rtrc" -> ReadTrace(e.h, e)
      [] e.op = "rclose" -> CloseReader(e.h)
      [] e.op = "wopen" -> OpenWriter(e.h, e.f,
            [gh |-> e.gh, gh2 |-> e.gh2, ghn |-> e.ghn, blk3 |-> e.blk3,
             chs |-> e.chs, ext |-> e.ext, extl |-> e.extl, maps |-> M(e)], e)
      [] e.op = "wtrc" -> WriteTrace(e.h, [hdr |-> e.hdr, smp |-> e.smp], e)
      [] e.op = "wclose" -> CloseWriter(e.h, e.b)
      [] OTHER -> FALSE      \* "crash", "hang": nothing allows them

TInit == l = 1 /\ Init
TNext == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Log)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
