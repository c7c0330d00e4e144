------------------------------- MODULE Replay -------------------------------
(***************************************************************************)
(* Trace validation.  The file named by the environment variable TRACE     *)
(* holds sessions recorded from the real library; each is a sequence of    *)
(* events.  A session starts in the specification state InitSt(session)    *)
(* and every event moves it to NextSt(st, ev); Failing(st, ev) is the set  *)
(* of clauses <<name, detail>> of the specification that the observation   *)
(* breaks when it happens in st.  Failures are reported and validation     *)
(* goes on, so one run names every broken clause of every event.           *)
(***************************************************************************)
EXTENDS Num, TLC, Json, IOUtils

CONSTANTS InitSt(_), NextSt(_, _), Failing(_, _)
VARIABLES rSid, rPos, rSt

Sessions == JsonDeserialize(IOEnv.TRACE)
Events(s) == Sessions[s].events

ReplayInit == \E s \in 1..Len(Sessions) :
                 rSid = s /\ rPos = 0 /\ rSt = InitSt(Sessions[s])

Report(ev) == \A f \in Failing(rSt, ev) : PrintT("CLAUSE " \o ToJson(<<rSid, rPos + 1, f[1], f[2]>>))

ReplayNext ==
  /\ rPos < Len(Events(rSid))
  /\ LET ev == Events(rSid)[rPos + 1] IN
       /\ Report(ev)
       /\ rSt' = NextSt(rSt, ev)
  /\ rPos' = rPos + 1
  /\ rSid' = rSid

ReplaySpec == ReplayInit /\ [][ReplayNext]_<<rSid, rPos, rSt>>

\* every recorded event was consumed: one state per event plus one per session
RECURSIVE TotalLen(_)
TotalLen(k) == IF k = 0 THEN 0 ELSE Len(Events(k)) + 1 + TotalLen(k - 1)
ReplayComplete == TLCGet("stats").distinct = TotalLen(Len(Sessions))
=============================================================================
