------------------------------ MODULE MCOnline -------------------------------
(* Estimators with scalar estimates moved toward the samples.  Calls carry   *)
(* indices into small pools; the same module generates the behaviours that   *)
(* are replayed on the code.                                                 *)
EXTENDS LinAlg, Sequences, TLC, Json
CONSTANTS Depth, MaxObj, Emitting, Bad
S1(x) == <<<<CR(x)>>>>
Grad(k, x, e) == << MSub(<<<<x[1]>>>>, e[1]) >>
Retr(k, e, u) == << MAdd(e[1], u[1]) >>
Cov(k, e) == e[1]
VARIABLES sts, hist, since                 \* since: samples used since the last restart, per estimator
O == INSTANCE Online WITH Gradient <- Grad, Retract <- Retr, ToCov <- Cov
vars == <<sts, hist, since>>
Datas == << <<<<CR(RInt(2))>>, <<CR(RInt(-1))>>, <<CR(RInt(8))>>>>, <<<<CR(RInt(5))>>, <<CR(RInt(4))>>>> >>
Inits == << <<S1(RInt(1))>>, <<S1(RInt(-3))>> >>
Rates == << ROne, RHalf, RFrac(1, 8) >>
(* index calls  <<op, o, i, j, d>>:  i, j > number of pool elements are ill   *)
(* formed, j = 0 no initial estimate                                         *)
Calls(o) ==
  {<<"set", o, i, 0, 0>> : i \in 1..(IF Bad THEN 3 ELSE 2)} \cup
  {<<"update", o, i, 0, d>> : i \in 1..3, d \in 0..1} \cup
  {<<"fit", o, i, j, d>> : i \in 1..(IF Bad THEN 4 ELSE 2), j \in 0..(IF Bad THEN 3 ELSE 2), d \in 0..1} \cup
  {<<"rate", o, i, 0, 0>> : i \in 1..3} \cup
  (IF Len(sts) < MaxObj THEN {<<"copy", o, 0, 0, 0>>, <<"clone", o, 0, 0, 0>>} ELSE {})
Full(c) ==
  LET r == [op |-> c[1], o |-> c[2], sound |-> TRUE, d |-> c[5] = 1] IN
  CASE c[1] = "set" -> [r EXCEPT !.sound = c[3] <= 2] @@ [e |-> IF c[3] <= 2 THEN Inits[c[3]] ELSE <<>>]
    [] c[1] = "update" -> r @@ [x |-> Datas[1][c[3]]]
    [] c[1] = "fit" -> [r EXCEPT !.sound = c[3] <= 2 /\ c[4] <= 2]
                       @@ [X |-> IF c[3] <= 2 THEN Datas[c[3]] ELSE <<>>, e |-> IF c[4] \in 1..2 THEN Inits[c[4]] ELSE <<>>]
    [] c[1] = "rate" -> r @@ [lr |-> Rates[c[3]]]
    [] OTHER -> r
Since(c) ==
  LET f == Full(c) s == sts[f.o] IN
  IF ~f.sound THEN since
  ELSE CASE c[1] = "update" -> IF s.est = <<>> THEN since ELSE [since EXCEPT ![f.o] = Append(@, f.x)]
         [] c[1] = "fit" -> IF f.e = <<>> THEN since ELSE [since EXCEPT ![f.o] = f.X]
         [] c[1] = "copy" -> Append(since, since[f.o])
         [] c[1] = "clone" -> Append(since, <<>>)
         [] OTHER -> since
Init == sts = <<O!New("scalar", ROne)>> /\ hist = <<>> /\ since = <<<<>>>>
Act == /\ Len(hist) < Depth
       /\ \E o \in 1..Len(sts) : \E c \in Calls(o) :
            sts' = O!After(Full(c)) /\ since' = Since(c) /\ hist' = Append(hist, c)
Emit == /\ Emitting /\ Len(hist) = Depth
        /\ PrintT("RSV " \o ToJson([calls |-> hist])) /\ hist' = Append(hist, <<"end">>) /\ UNCHANGED <<sts, since>>
Next == Act \/ Emit
Spec == Init /\ [][Next]_vars

T == RPow2(-140)
Val(s) == Re(s.est[1][1][1])
Schedule == \A o \in 1..Len(sts) : sts[o].n = Len(since[o])
Uninitialised == \A o \in 1..Len(sts) : sts[o].est = <<>> => sts[o].n = 0
Last == hist[Len(hist)]
(* rate one and the decreasing schedule give the mean of the samples;        *)
(* a constant rate gives the exponentially weighted mean                     *)
RECURSIVE Ewm(_, _, _, _)
Ewm(r, e, X, i) == IF i = 0 THEN e ELSE LET b == Ewm(r, e, X, i - 1) IN RAdd(b, RMul(r, RSub(Re(X[i][1]), b)))
FitLaw == (hist # <<>> /\ Last[1] = "fit") =>
  LET f == Full(Last) s == sts[f.o] IN
  (f.sound /\ f.e # <<>>) =>
    /\ (f.d /\ s.lr = ROne) => RClose(Val(s), RDiv(RSum([i \in 1..Len(f.X) |-> Re(f.X[i][1])]), RInt(Len(f.X))), T)
    /\ ~f.d => RClose(Val(s), Ewm(s.lr, Re(f.e[1][1][1]), f.X, Len(f.X)), T)
Others == [][hist' # hist /\ hist'[Len(hist')] # <<"end">> =>
   \A o \in 1..Len(sts) : o # hist'[Len(hist')][2] => sts'[o] = sts[o]]_vars
ErrorsChangeNothing == [][hist' # hist /\ hist'[Len(hist')] # <<"end">> =>
   LET f == Full(hist'[Len(hist')]) IN (~f.sound \/ O!LogsError(f)) => sts' = sts]_vars
=============================================================================
