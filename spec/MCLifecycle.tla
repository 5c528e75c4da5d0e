---------------------------- MODULE MCLifecycle -----------------------------
EXTENDS Lifecycle, TLC, Json
CONSTANTS Q1, Q2, Q3, MaxObj, Depth, FitArgs, Emitting, OpKinds
VARIABLE hist                              \* the calls made so far
vars == <<objs, hist>>

FewFits == {<<1, 0>>, <<2, 2>>, <<3, 0>>}
AllFits == {<<1, 0>>, <<1, 1>>, <<2, 0>>, <<2, 2>>, <<3, 0>>, <<4, 0>>, <<5, 0>>, <<6, 0>>,
            <<1, 2>>, <<1, 3>>, <<2, 4>>}
Do(h) == hist' = Append(hist, h)
Init == objs = <<Object(<<1, 1, 1>>, NoFit)>> /\ hist = <<>>
More == Len(hist) < Depth
Values(j) == IF j = 1 THEN Q1 ELSE IF j = 2 THEN Q2 ELSE Q3
Set1  == More /\ "set" \in OpKinds
              /\ \E o \in 1..Len(objs), j \in 1..3 : \E v \in Values(j) :
                objs[o].par[j] # v /\ SetParam(o, j, v) /\ Do(<<"set", o, j, v>>)
Fit1  == More /\ "fit" \in OpKinds
              /\ \E o \in 1..Len(objs), a \in FitArgs :
                FitOK(o, a[1], a[2]) /\ Do(<<"fit", o, a[1], a[2]>>)
Fail1 == More /\ "fail" \in OpKinds
              /\ \E o \in 1..Len(objs), a \in FitArgs :
                FitFails(o, a[1], a[2]) /\ Do(<<"fit", o, a[1], a[2]>>)
Query1 == More /\ "query" \in OpKinds
               /\ \E o \in 1..Len(objs) : Query(o) /\ Do(<<"query", o>>)
Clone1 == More /\ "copy" \in OpKinds
               /\ Len(objs) < MaxObj /\ \E o \in 1..Len(objs) :
                 objs[o].par[1] # 3 /\ Clone(o) /\ Do(<<"clone", o>>)
Copy1  == More /\ "copy" \in OpKinds
               /\ Len(objs) < MaxObj /\ \E o \in 1..Len(objs) : DeepCopy(o) /\ Do(<<"copy", o>>)
Emit == /\ Emitting /\ Len(hist) = Depth
        /\ PrintT("RSV " \o ToJson([calls |-> hist])) /\ hist' = Append(hist, <<"end">>) /\ UNCHANGED objs
(* a successful fit is offered three times as often to the simulator         *)
Fit2 == Fit1
Fit3 == Fit1
Next == Set1 \/ Fit1 \/ Fit2 \/ Fail1 \/ Query1 \/ Clone1 \/ Copy1 \/ Fit3 \/ Emit
Spec == Init /\ [][Next]_vars

(* what an object holds depends only on its last successful fit (its own, or *)
(* its original's before it was copied)                                      *)
RECURSIVE Replay(_, _)
ParAt(o, k) ==                             \* parameters of object o after k calls
  Replay(k, 1)[o].par
Replay(k, dummy) ==
  IF k = 0 THEN <<Object(<<1, 1, 1>>, NoFit)>>
  ELSE LET s == Replay(k - 1, dummy) h == hist[k] IN
       CASE h[1] = "set"  -> [s EXCEPT ![h[2]].par[h[3]] = h[4]]
         [] h[1] = "clone" -> Append(s, Object(s[h[2]].par, NoFit))
         [] h[1] = "copy" -> Append(s, s[h[2]])
         [] OTHER -> s
Births == [o \in 1..Len(objs) |->
  IF o = 1 THEN 0 ELSE CHOOSE k \in 1..Len(hist) :
    /\ hist[k][1] \in {"clone", "copy"}
    /\ Len(SelectSeq(SubSeq(hist, 1, k), LAMBDA h : h[1] \in {"clone", "copy"})) = o - 1]
RECURSIVE LastFit(_, _)
LastFit(o, k) ==                           \* key of the last fit visible to o after k calls
  IF k = Births[o]
  THEN IF o = 1 \/ hist[k][1] = "clone" THEN NoFit ELSE LastFit(hist[k][2], k - 1)
  ELSE LET h == hist[k] IN
       IF h[1] = "fit" /\ h[2] = o /\ ValidFit(ParAt(o, k - 1), h[3], h[4])
       THEN Key(ParAt(o, k - 1), h[3], h[4]) ELSE LastFit(o, k - 1)
HistoryFree == Len(hist) <= Depth => \A o \in 1..Len(objs) : objs[o].fit = LastFit(o, Len(hist))
NeverInvalid == \A o \in 1..Len(objs) : objs[o].fit # NoFit => objs[o].fit[1] # 3 /\ objs[o].fit[3] \in SoundData
(* a call on one object leaves all others alone                              *)
Independent == [][\A o \in 1..Len(objs) : (hist' # hist /\ hist'[Len(hist')] # <<"end">>) =>
                    (hist'[Len(hist')][2] # o => objs'[o] = objs[o])]_vars
QuietCalls == [][(hist' # hist /\ hist'[Len(hist')][1] \in {"query", "clone", "copy"}) =>
                    \A o \in 1..Len(objs) : objs'[o] = objs[o]]_vars
=============================================================================
