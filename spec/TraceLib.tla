------------------------------ MODULE TraceLib ------------------------------
(* Reading recorded traces.  A trace file holds many scenarios, one event per *)
(* line, every scenario starting with a "reset" event that carries its        *)
(* configuration.  A scenario whose recorded event the specification cannot   *)
(* explain is reported (REJECT) and skipped up to the next reset, so that the *)
(* remaining scenarios are still judged.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceLen == Len(Trace)

Has(r, f) == f \in DOMAIN r
Get(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d

Reject(sc, at, why, expected) ==
    PrintT(ToJson([reject |-> sc, at |-> at, why |-> why, expected |-> ToString(expected)]))
Done(n) == PrintT(ToJson([done |-> n]))
=============================================================================
