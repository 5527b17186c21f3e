------------------------------- MODULE Memory -------------------------------
(***************************************************************************)
(* What may happen once an allocation fails. A call of the library is a    *)
(* sequence of things seen from outside: F an allocation fails, P the      *)
(* installed panic handler is called (with a message; it does not return), *)
(* R the call returns. Without a handler of the caller's, the default one  *)
(* writes the message and ends the process.                                *)
(***************************************************************************)
EXTENDS Bytes

OutOfMemory == B("Out of memory!") \o <<NL>>
EvFail == 70
EvPanic == 80
EvReturn == 82

\* the states of a call: "run", "failed" (an allocation has failed, nothing else may happen but a panic), "panic", "back"
After(s, x) == CASE s = "run" /\ x = EvFail -> "failed"
                 [] s = "run" /\ x = EvReturn -> "back"
                 [] s = "failed" /\ x = EvPanic -> "panic"
                 [] OTHER -> "wrong"

\* one run of a call in mode m: "c" with a panic handler of the caller's, "d" without, "a"/"e" without and with
\* EF_DUMPCORE set to something / to nothing
FaultOk(m, r) ==
  LET s1 == IF Len(r.ev) < 1 THEN "run" ELSE After("run", r.ev[1])
      s2 == IF Len(r.ev) < 2 THEN s1 ELSE After(s1, r.ev[2])
  IN  CASE s2 = "back" -> Len(r.ev) = 1 /\ r.code = 0
        [] s2 = "panic" -> m = "c" /\ From(r.ev, 2) = OutOfMemory /\ r.code = 0
        [] s2 = "failed" -> /\ m # "c" /\ r.err = OutOfMemory
                            /\ IF m = "a" THEN r.sig = 6 ELSE r.code = 1
        [] OTHER -> FALSE
\* runs[k]: the k-th allocation fails; in the last one no allocation fails any more
FaultsOk(m, runs) ==
  /\ Len(runs) >= 1
  /\ \A k \in 1..Len(runs) : FaultOk(m, runs[k])
  /\ \A k \in 1..Len(runs) : (runs[k].ev = <<EvReturn>>) <=> (k = Len(runs))
=============================================================================
