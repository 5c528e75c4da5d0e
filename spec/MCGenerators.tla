---------------------------- MODULE MCGenerators -----------------------------
(* Sequences of generator calls on one stream; laws of the sample models.    *)
EXTENDS Generators, TLC, Json, FiniteSets
CONSTANTS Depth, Dims, Counts, Emitting
VARIABLES hist
vars == <<gvars, start, expo, hist>>
Init == used = 0 /\ owner = <<>> /\ hist = <<>> /\ start = <<>> /\ expo = <<1, 1>>
Calls ==
  [f : {"std", "normal"}, complex : BOOLEAN, p : Dims, n : Counts, k : {1}]
  \cup [f : {"compound"}, complex : BOOLEAN, p : Dims, n : Counts, k : {1, 2, 3}]      \* k: form of the texture
  \cup [f : {"lowrank"}, complex : BOOLEAN, p : Dims, n : Counts, k : Dims]
  \cup [f : {"cov"}, complex : BOOLEAN, p : Dims \ {1}, n : {1}, k : {0, 1}]           \* k: unit determinant
  \cup [f : {"frame"}, complex : BOOLEAN, p : Dims \ {1}, n : {1}, k : Dims]
  \cup [f : {"gamma", "lognormal"}, complex : {FALSE}, p : {1}, n : Counts, k : {1, 2}]
Refused == [f : {"normal", "compound", "lowrank"}, complex : BOOLEAN, p : Dims, n : Counts, k : {1}]
Valid(c) == c.f # "lowrank" \/ c.k <= c.p
Step == /\ Len(hist) < Depth
        /\ \/ \E c \in Calls : Valid(c) /\ Consume(c, Len(hist) + 1) /\ hist' = Append(hist, <<"call", c>>)
           \/ \E c \in Refused : Refuse /\ hist' = Append(hist, <<"refused", c>>)
        /\ UNCHANGED <<start, expo>>
Emit == /\ Emitting /\ Len(hist) = Depth
        /\ PrintT("RSV " \o ToJson([calls |-> hist])) /\ hist' = Append(hist, <<"end">>)
        /\ UNCHANGED <<gvars, start, expo>>
Next == Step \/ Emit
Spec == Init /\ [][Next]_vars

(* no draw serves two calls, every call got what it needs                    *)
Served(i) == Cardinality({j \in 1..used : owner[j] = i})
Fresh == /\ Len(owner) = used
         /\ \A i \in 1..Len(hist) : hist[i][1] # "end" => Served(i) = (IF hist[i][1] = "call" THEN Blocks(hist[i][2]) ELSE 0)

(* ---------------------------- laws of the models ------------------------- *)
C(a, b) == <<RInt(a), RInt(b)>>
S2 == << <<C(5, 0), C(1, -2)>>, <<C(1, 2), C(3, 0)>> >>
Zs == << <<C(1, 1), C(0, -2), C(3, 0)>>, <<C(2, 0), C(1, 1), C(-1, 4)>> >>
Z1 == << <<C(1, 0), C(-2, 1), C(0, 1)>> >>
U  == << <<C(1, 0)>>, <<C(0, 0)>> >>
tt == <<RInt(4), RInt(0), RInt(9)>>
tol == RPow2(-110)
ASSUME \* colouring: (S^1/2 Z)(S^1/2 Z)^H = S^1/2 Z Z^H S^1/2, and whitening undoes it
  LET X == Coloured(S2, Zs) W == MInv(MSqrt(S2)) IN MNear(MMul(W, X), Zs, tol)
ASSUME \* a column of texture 0 vanishes, one of texture t is sqrt(t) times the normal one
  LET X == Compound(tt, S2, Zs) Y == Coloured(S2, Zs) IN
  \A i \in 1..2 : /\ X[i][2] = CZero
                  /\ Within(X[i][1], CMul(C(2, 0), Y[i][1]), tol) /\ Within(X[i][3], CMul(C(3, 0), Y[i][3]), tol)
ASSUME \* low rank: outside the span of the frame only the white noise is left
  LET X == LowRank(tt, U, Z1, Zs) IN \A j \in 1..3 : X[2][j] = Zs[2][j]
ASSUME \* normalisation: unit determinant, same shape
  UnitDet(Normalised(S2), tol) /\ MNear(MScaleR(RSqrt(Re(MDet(S2))), Normalised(S2)), S2, tol)
ASSUME \* a circular sample: second moments without conjugation vanish
  LET X == << <<C(1, 0), C(-1, 0), C(0, 1), C(0, -1)>> >> IN RowPseudo(X, 1, 1) = CZero /\ RowMoment(X, 1, 1) = COne
=============================================================================
