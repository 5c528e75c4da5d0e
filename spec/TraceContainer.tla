--------------------------- MODULE TraceContainer ---------------------------
(* Recorded calls on real containers against Container.  Trace.items maps    *)
(* identifiers to items; after every call every container is recorded.       *)
EXTENDS Container, TraceBase
vars == <<conts, base>>
P == Trace.prop
Init == BaseInit /\ conts = <<<<>>>>
Item(id) == Trace.items[id]
Held(s) == [i \in 1..Len(s) |-> Item(s[i])]
Sig == Trace.sig
Same(seen, s) ==                           \* a recorded container holds exactly these items
  /\ seen.len = Len(s)
  /\ seen.items = Held(s)
  /\ Len(s) > 0 => /\ seen.shape = [c \in 1..Len(Sig) |-> <<Len(s)>> \o Sig[c]]
                   /\ seen.dt = Trace.dt
EvCall ==
  LET e == Ev h == e.h new == After(h)
      legal == h[1] # "bad" /\ (h[1] = "take" => ValidKey(h[3], Len(conts[h[2]])))
      made == Len(new) > Len(conts)
  IN
  /\ conts' = new
  /\ Judge(
     << <<"SameObjects", Len(e.seen) = Len(new)>> >> \o
     (IF P = "C12" THEN
       << <<"Succeeds", legal => e.outcome = "ok">>,
          <<"KeyRejected", ~legal /\ h[1] = "take" => e.outcome \notin {"ok", "Timeout"}>>,
          <<"HoldsExactlyTheItems", h[1] \in {"add", "join"} => Same(e.seen[h[2]], new[h[2]])>>,
          <<"SelectsTheItems", made => Same(e.seen[Len(new)], new[Len(new)])>>,
          <<"ExportIsTheItems", h[1] = "export" => e.export = Held(conts[h[2]])>>,
          <<"OthersUnchanged", \A c \in 1..Len(conts) : (h[1] \notin {"add", "join"} \/ h[2] # c) => Same(e.seen[c], conts[c])>>,
          <<"ArgumentsUntouched", e.args>> >>
      ELSE IF P = "C13" THEN
       << <<"Raises", h[1] = "bad" => e.outcome \notin {"ok", "Timeout"}>>,
          <<"Unchanged", h[1] = "bad" => \A c \in 1..Len(conts) : Same(e.seen[c], conts[c])>>,
          <<"LaterAppendsWork", legal => e.outcome = "ok" /\ \A c \in 1..Len(new) : Same(e.seen[c], new[c])>> >>
      ELSE
       << <<"Succeeds", legal => e.outcome = "ok">>,
          <<"OneRowPerItem", h[1] = "vectorize" => e.rows = VectorRows(Held(conts[h[2]]), Sig)>>,
          <<"NotChanged", \A c \in 1..Len(new) : Same(e.seen[c], new[c])>> >>))
Next ==
  \/ More /\ CASE Ev.a = "call" -> EvCall
               [] Ev.a = "unexpected" -> UnexpectedFailure /\ UNCHANGED conts
  \/ Finish /\ UNCHANGED conts
=============================================================================
