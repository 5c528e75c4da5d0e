---------------------------- MODULE TraceMatrix ------------------------------
(* Recorded calls of the matrix helpers against MatrixFunctions.             *)
EXTENDS MatrixFunctions, TraceBase
vars == <<start, expo, base>>
Init == BaseInit /\ start = <<>> /\ expo = <<1, 1>>
T14 == RPow2(-44)
T8  == RFrac(1, 100000000)
Keep == UNCHANGED <<start, expo>>
(* condition of a matrix, for tolerances                                     *)
Cond(A) == RMul(Frob(A), Frob(MInv(A)))
Fine(A) == RMul(RPow2(-42), RAdd(RInt(16), Cond(A)))      \* relative to the size of a function of A
Value(e) ==
  CASE e.f = "sqrtm" -> MSqrt(e.A)
    [] e.f = "invsqrtm" -> MInv(MSqrt(e.A))
    [] e.f = "logm" -> MLog(e.A)
    [] e.f = "expm" -> MExp(e.A)
    [] e.f = "powm" -> IF e.int THEN MPowInt(e.A, e.alpha) ELSE MPow(e.A, e.ralpha)
Indefinite(e) == e.f = "expm" \/ (e.f = "powm" /\ e.int)
Tol(e) == IF e.f = "expm" THEN RMul(RPow2(-42), RAdd(RInt(16), Frob(e.A)))
          ELSE RMul(Fine(e.A), IF e.f = "powm" THEN RAdd(RTwo, RAbs(e.ralpha)) ELSE RTwo)
Shape(e) == <<"Shape", IsMat(e.B, Len(e.A), Len(e.A))>>
Domain(e) == <<"Domain", Indefinite(e) \/ IsPD(e.A)>>
Near(e, B, V) == IF e.f = "logm" THEN RLeq(Frob(MSub(B, V)), RMul(Tol(e), RAdd(ROne, Frob(V)))) ELSE MNear(B, V, Tol(e))
FunClauses(e) ==
  << Shape(e), <<"MatrixFunction", Near(e, e.B, Value(e))>>,
     <<"HermitianResult", IsHermitian(e.B, T14) \/ (e.f = "logm" /\ RLeq(Frob(MSub(e.B, MHerm(e.B))), Tol(e)))>>,
     <<"PositiveResult", (IsPD(e.A) /\ e.f \in {"sqrtm", "invsqrtm"}) => IsPD(e.B)>>,
     <<"Kind", e.kout = (IF e.kin = "complex" THEN "complex" ELSE "real")>>,
     <<"ArgumentUnchanged", e.same>> >>
KindKept(e) == e.kin \notin {"real", "complex"} \/ e.kout = e.kin
EvFun == Keep /\ Judge(FunClauses(Ev))

EvBegin == LET e == Ev IN Begin(e.A) /\ Judge(<< <<"Start", IsPD(e.A)>> >>)
WalkTol == RMul(RPow2(-42), RAdd(RInt(16), RPowN(Cond(start), 4)))
(* one step of a walk: e.B is what the code returned for the previous matrix *)
EvWalk ==
  LET e == Ev IN
  /\ Apply(e.c)
  /\ Judge(<< <<"WalkExponent", MNear(e.B, MPowFrac(start, expo'), WalkTol)>>,
              <<"WalkHermitian", IsHermitian(e.B, WalkTol)>>,
              <<"WalkPositive", IsPD(e.B)>>,
              <<"WalkKind", KindKept(e)>> >>)
(* derivative of Re sum conj(W) f(A) along the Hermitian direction E         *)
Pairing(W, B) == Re(CSum([i \in 1..Len(W) |-> VDot(W[i], B[i])]))
EvGrad ==
  LET e == Ev
      h == RMul(RPow2(-40), RDiv(RDiv(ROne, Frob(MInv(e.A))), Frob(e.E)))
      F(B) == Value([e EXCEPT !.A = B])
      dB == MScaleR(RDiv(RHalf, h), MSub(F(MAdd(e.A, MScaleR(h, e.E))), F(MSub(e.A, MScaleR(h, e.E)))))
  IN Keep /\ Judge(<< <<"Derivative", RNear(Pairing(e.G, e.E), Pairing(e.W, dB), T8,
                         RAdd(RMul(Frob(e.W), Frob(dB)), RMul(RPow2(-20), RMul(Frob(e.G), Frob(e.E)))))>>,
                      <<"DerivativeKind", KindKept(e)>> >>)

(* -------------------------------- stacks --------------------------------- *)
EvStack ==
  LET e == Ev IN Keep /\
  Judge(<< <<"StackSize", Len(e.B) = Len(e.A)>>,
           <<"EveryMatrix", Len(e.B) = Len(e.A) /\ \A k \in 1..Len(e.A) :
               IF e.f = "multihconj" THEN e.B[k] = MHerm(e.A[k])
               ELSE MNearAbs(e.B[k], Herm(e.A[k]), RMul(T14, Frob(e.A[k])))>>,
           <<"ArgumentUnchanged", e.same>> >>)
EvSymmetry ==                                  \* check_Hermitian, check_Symmetric on clear cases
  LET e == Ev IN Keep /\
  Judge(<< <<"HermitianTest", e.herm = IsHermitian(e.A, RPow2(-26))>>,
           <<"SymmetricTest", e.sym = RLeq(Frob(MSub(e.A, MTr(e.A))), RMul(RPow2(-26), Frob(e.A)))>>,
           <<"SquareTest", e.square = IsSquare(e.A)>> >>)

(* ----------------------------- vectorisation ----------------------------- *)
EvVec ==
  LET e == Ev k == Len(e.A) IN Keep /\
  Judge(<< <<"Vec", e.vec = Vec(e.A)>>,
           <<"Unvec", (Has("unvec", e)) => e.unvec = e.A>>,
           <<"VecKind", KindKept(e)>>, <<"ArgumentUnchanged", e.same>> >>)
EvVech ==
  LET e == Ev k == Len(e.A) IN Keep /\
  Judge(<< <<"Vech", e.vech = Vech(e.A)>>,
           <<"VechKind", KindKept(e)>>, <<"ArgumentUnchanged", e.same>> >>)
EvUnvec == LET e == Ev IN Keep /\ Judge(<< <<"UnvecEntries", e.A = Unvec(e.v, e.k)>>, <<"VecBack", e.back = e.v>>,
                                          <<"UnvecKind", KindKept(e)>>, <<"ArgumentUnchanged", e.same>> >>)
EvUnvech == LET e == Ev IN Keep /\ Judge(<< <<"UnvechEntries", e.A = Unvech(e.v, e.k)>>,
                                           <<"VechBack", e.back = Vech(Unvech(e.v, e.k))>>,
                                           <<"UnvechKind", KindKept(e)>>, <<"ArgumentUnchanged", e.same>> >>)
EvRefused == LET e == Ev IN Keep /\ Judge(<< <<"SizeRefused", e.refused>> >>)

EvToeplitz ==
  LET e == Ev T == Toeplitz(e.rho, e.p) IN Keep /\
  Judge(<< <<"Toeplitz", IsMat(e.T, e.p, e.p) /\ MNearAbs(e.T, T, RMul(RPow2(-40), Frob(T)))>>,
           <<"ToeplitzHermitian", IsHermitian(e.T, RZero)>>,
           <<"ToeplitzType", e.dt = e.want>> >>)

Next ==
  \/ More /\ CASE Ev.a = "fun" -> EvFun
               [] Ev.a = "begin" -> EvBegin
               [] Ev.a = "walk" -> EvWalk
               [] Ev.a = "grad" -> EvGrad
               [] Ev.a = "stack" -> EvStack
               [] Ev.a = "symmetry" -> EvSymmetry
               [] Ev.a = "vec" -> EvVec
               [] Ev.a = "vech" -> EvVech
               [] Ev.a = "unvec" -> EvUnvec
               [] Ev.a = "unvech" -> EvUnvech
               [] Ev.a = "refused" -> EvRefused
               [] Ev.a = "toeplitz" -> EvToeplitz
               [] Ev.a = "unexpected" -> UnexpectedFailure /\ Keep
  \/ Finish /\ Keep
=============================================================================
