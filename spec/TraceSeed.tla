----------------------------- MODULE TraceSeed -------------------------------
(* Recorded use of temporary seed blocks against Seed.  Trace.ref holds, for *)
(* the positions the behaviour reaches, what a stream of that seed that no    *)
(* block touches gives after the same draws; seed 6 stands for "no seed" (drawn    *)
(* from the operating system), whose stream is unknown.                      *)
EXTENDS Seed, TraceBase
VARIABLES last, aside                      \* fingerprint now, and when each open block was entered
vars == <<svars, base, last, aside>>
Unknown == 6
Init == BaseInit /\ pos = At(1) /\ blocks = <<>> /\ last = Trace.start /\ aside = <<>>
Reached(p) == Trace.ref[CHOOSE i \in 1..Len(Trace.ref) : Trace.ref[i].seed = p[1] /\ Trace.ref[i].ops = p[2]]
Ref(p) == Reached(p).state                 \* of the stream
Drawn(p) == Reached(p).last                \* of what the last draw gave
(* the recorded state of the global stream is compared as a fingerprint      *)
Shows(e, p) == p[1] = Unknown \/ e.state = Ref(p)
EvStep ==
  LET e == Ev c == e.c IN
  /\ CASE c[1] = "draw" -> Draw(c[2])
       [] c[1] = "reseed" -> Reseed(c[2])
       [] c[1] = "enter" -> Enter(c[2])
       [] c[1] = "leave" -> Leave
       [] c[1] = "unwind" -> Unwind(c[2])
  /\ last' = e.state
  /\ aside' = CASE c[1] = "enter" -> Append(aside, last)
                [] c[1] \in {"leave", "unwind"} -> SubSeq(aside, 1, Len(blocks'))
                [] OTHER -> aside
  /\ Judge(<< <<"Stream", Shows(e, pos')>>,
              <<"Restored", c[1] \in {"leave", "unwind"} => e.state = aside[Len(blocks') + 1]>>,
              <<"Draws", (c[1] = "draw" /\ pos[1] # Unknown) => e.v = Drawn(pos')>>,
              <<"ExceptionPropagates", c[1] = "unwind" => e.raised>>,
              <<"NoException", c[1] # "unwind" => ~e.raised>> >>)
Next ==
  \/ More /\ CASE Ev.a = "step" -> EvStep
               [] Ev.a = "unexpected" -> UnexpectedFailure /\ UNCHANGED <<svars, last, aside>>
  \/ Finish /\ UNCHANGED <<svars, last, aside>>
=============================================================================
