--------------------------- MODULE TraceGeometry ----------------------------
(* Recorded operations of the manifold classes against Geometry.  Trace.man  *)
(* is [fam, n, k] for single manifolds; for products Trace.man.comps and     *)
(* Trace.man.w, and pt is a sequence of stacks, one per component.           *)
EXTENDS Geometry, TraceBase
vars == <<pt, base>>
Init == BaseInit /\ pt = <<>>
T7  == RFrac(1, 10000000)
T9  == RFrac(1, 1000000000)
T10 == RFrac(1, 1000000000)
Mf == Trace.man
n == Mf.n
special == Mf.fam = "shpd"
Close(a, b, s) == RNear(a, b, T7, RAdd(s, RAbs(b)))
One == ROne
Keep == UNCHANGED pt
OnManifold(X) == Len(X) = Mf.k /\ IsHPD(X, n, T9) /\ (special => UnitDet(X, T7))
Tangent(X, U) == Len(U) = Mf.k /\ IsTangent(U, n, T9) /\ (special => TraceFree(X, U, T7))
StackSize(X, U) == RSum([k \in 1..Len(X) |-> Size1(X[k], U[k])])

(* tangent up to a residue that is small next to a given size (what is       *)
(* projected may be nearly orthogonal to the tangent space)                  *)
TangentWithin(X, U, s) ==
  /\ Len(U) = Mf.k
  /\ \A k \in 1..Len(U) : IsMat(U[k], n, n) /\ RLeq(Size1(X[k], MSub(U[k], MHerm(U[k]))), s)
  /\ special => \A k \in 1..Len(U) : RLeq(RAbs(TraceAt1(X[k], U[k])), RMul(RInt(n), s))

Tiny == RFrac(1, 1000000000)                \* rounding in points of condition up to 1e5
Dimension == Mf.k * (n * n - IF special THEN 1 ELSE 0)

EvPoint ==
  LET e == Ev IN pt' = e.X /\ Judge(<< <<"OnManifold", OnManifold(e.X)>>, <<"Dimension", e.dim = Dimension>> >>)
EvRandVec ==
  LET e == Ev IN Keep /\
  Judge(<< <<"IsTangent", Tangent(pt, e.U)>>,
           <<"UnitNorm", Close(NormHPD(pt, e.U), One, One)>>,
           <<"NormIsMetric", Close(e.norm, NormHPD(pt, e.U), One)>>,
           <<"ZeroVector", \A k \in 1..Len(e.Z) : IsMat(e.Z[k], n, n) /\ Frob(e.Z[k]) = RZero>> >>)
EvInner ==
  LET e == Ev s == RMul(NormHPD(pt, e.U), NormHPD(pt, e.V)) IN Keep /\
  Judge(<< <<"InnerProduct", Close(e.v, InnerHPD(pt, e.U, e.V), s)>>,
           <<"Norm", Close(e.norm, NormHPD(pt, e.U), RZero)>> >>)
EvProj ==
  LET e == Ev want == IF special THEN ProjSHPD(pt, e.G) ELSE ProjHPD(pt, e.G) s == RMul(T7, StackSize(pt, e.G)) IN Keep /\
  Judge(<< <<"OrthogonalProjection", RLeq(StackSize(pt, [k \in 1..Len(pt) |-> MSub(e.P[k], want[k])]), s)>>,
           <<"Idempotent", RLeq(StackSize(pt, [k \in 1..Len(pt) |-> MSub(e.PP[k], e.P[k])]), s)>>,
           <<"IsTangent", TangentWithin(pt, e.P, RMul(T7, StackSize(pt, e.G)))>> >>)
EvGrad ==
  LET e == Ev want == IF special THEN GradSHPD(pt, e.G) ELSE GradHPD(pt, e.G) IN Keep /\
  Judge(<< <<"GradientFormula", StackNear(e.R, want, T7)>>,
           <<"Represents", Close(InnerHPD(pt, e.R, e.U), Derivative(e.G, e.U),
                                 RMul(NormHPD(pt, e.R), NormHPD(pt, e.U)))>>,
           <<"IsTangent", Tangent(pt, e.R)>> >>)
EvHess ==
  LET e == Ev IN Keep /\
  Judge(<< <<"CovariantDerivative", StackNear(e.R, HessHPD(pt, e.G, e.H, e.U), T7)>> >>)
EvExp ==
  LET e == Ev IN pt' = e.Y /\
  Judge(<< <<"Exponential", StackNear(e.Y, ExpHPD(pt, e.U), T7)>>,
           <<"OnManifold", OnManifold(e.Y)>> >>)
EvLog ==                                   \* logarithm and distances between pt and Y
  LET e == Ev d == NormHPD(pt, e.L) IN Keep /\
  Judge(<< <<"Logarithm", IsLog(pt, e.Y, e.L, n, T7)>>,
           <<"IsTangent", Tangent(pt, e.L)>>,
           <<"DistanceIsNormOfLog", Close(e.d, d, T7)>>,
           <<"Symmetric", Close(e.drev, d, T7)>>,
           <<"AffineInvariant", Close(e.dcong, d, T7)>> >>)
EvBack ==                                  \* log of exp gives the tangent vector back
  LET e == Ev IN Keep /\
  Judge(<< <<"LogOfExp", RLeq(StackSize(pt, [k \in 1..Len(pt) |-> MSub(e.L[k], e.U[k])]),
                              RMul(T7, RAdd(One, StackSize(pt, e.U))))>> >>)
EvLong ==                                  \* a step far away, compared and not taken
  LET e == Ev IN Keep /\
  Judge(<< <<"Exponential", StackNear(e.Y, ExpHPD(pt, e.U), T7)>> >>)
EvShort ==                                 \* a minute step: the displacement itself is U
  LET e == Ev X == ExpHPD(pt, e.U) IN Keep /\
  Judge(<< <<"Exponential", StackNear(e.Y, X, RFrac(1, 1000000000))>>,
           <<"FirstOrder", StackNear(e.R, X, RFrac(1, 1000000000))>>,
           <<"Displacement", \A k \in 1..Len(pt) :
              /\ RLeq(Size1(pt[k], MSub(MSub(e.Y[k], pt[k]), e.U[k])), RAdd(RMul(RFrac(1, 100000), Size1(pt[k], e.U[k])), Tiny))
              /\ RLeq(Size1(pt[k], MSub(MSub(e.R[k], pt[k]), e.U[k])), RAdd(RMul(RFrac(1, 100000), Size1(pt[k], e.U[k])), Tiny))>>,
           <<"Norm", Close(e.norm, NormHPD(pt, e.U), RZero)>> >>)
EvTransport ==
  LET e == Ev s == RMul(NormHPD(pt, e.D), NormHPD(pt, e.E)) IN Keep /\
  Judge(<< <<"IsTangent", Tangent(e.Y, e.TD) /\ Tangent(e.Y, e.TE)>>,
           <<"Isometry", /\ Close(InnerHPD(e.Y, e.TD, e.TE), InnerHPD(pt, e.D, e.E), s)
                         /\ Close(InnerHPD(e.Y, e.TD, e.TD), InnerHPD(pt, e.D, e.D), RZero)>> >>)
EvRetr ==
  LET e == Ev X == ExpHPD(pt, e.U) w == StackSize(pt, e.U) IN Keep /\
  Judge(<< <<"OnManifold", OnManifold(e.R)>>,
           <<"SecondOrder", e.small =>
              \A k \in 1..Len(pt) : RLeq(Frob(MSub(e.R[k], X[k])),
                 RMul(Frob(pt[k]), RAdd(RPowN(w, 3), RFrac(1, 1000000000) )))>> >>)

(* --------------------------- weighted products --------------------------- *)
W == Mf.w
C == Len(Mf.comps)
PInner(X, U, V) == RSum([c \in 1..C |-> RMul(W[c], InnerHPD(X[c], U[c], V[c]))])
PSize(X, U, V) ==                          \* for tolerances
  RSum([c \in 1..C |-> RMul(RAdd(ROne, RAbs(W[c])), RMul(NormHPD(X[c], U[c]), NormHPD(X[c], V[c])))])
KInner(U, V) == InnerKron(Mf.alpha, pt[1], pt[2], U, V)
Metric(U, V) == IF Mf.fam = "kron" THEN KInner(U, V) ELSE PInner(pt, U, V)
CompTangent(c, U) ==
  LET m == Mf.comps[c] IN /\ IsTangent(U, m.n, T9)
                          /\ m.t = "shpd" => TraceFree(pt[c], U, T7)
PDim == LET RECURSIVE d(_)
            d(c) == IF c = 0 THEN 0 ELSE LET m == Mf.comps[c] IN d(c - 1) +
                      m.k * (CASE m.t = "hpd" -> m.n * m.n [] m.t = "shpd" -> m.n * m.n - 1 [] m.t = "spv" -> m.n)
        IN d(C)
EvPPoint == LET e == Ev IN pt' = e.X /\
  Judge(<< <<"OnManifold", \A c \in 1..C : LET m == Mf.comps[c] IN
               /\ IsHPD(e.X[c], m.n, T9) /\ (m.t = "shpd" => UnitDet(e.X[c], T7))>>,
           <<"Dimension", e.dim = PDim>> >>)
EvPInner ==
  LET e == Ev IN Keep /\
  Judge(<< <<"InnerProduct", Close(e.v, Metric(e.U, e.V), PSize(pt, e.U, e.V))>>,
           <<"Norm", Close(e.norm, RSqrt(Metric(e.U, e.U)), RZero)>> >>)
EvPRandVec ==
  LET e == Ev IN Keep /\
  Judge(<< <<"UnitNorm", Close(Metric(e.U, e.U), One, One)>>,
           <<"IsTangent", \A c \in 1..C : CompTangent(c, e.U[c])>> >>)
EvPGrad ==
  LET e == Ev IN Keep /\
  Judge(<< <<"Represents", Close(Metric(e.R, e.U), RSum([c \in 1..C |-> Derivative(e.G[c], e.U[c])]), PSize(pt, e.R, e.U))>>,
           <<"IsTangent", \A c \in 1..C : CompTangent(c, e.R[c])>> >>)
EvPDist ==
  LET e == Ev IN Keep /\
  Judge(<< <<"ReachedByExp", \A c \in 1..C : StackNear(e.Y[c], ExpHPD(pt[c], e.U[c]), T7)>>,
           <<"SquaredDistance", Close(RSq(e.v), PInner(pt, e.U, e.U), T7)>>,
           <<"Symmetric", Close(RSq(e.vrev), PInner(pt, e.U, e.U), T7)>> >>)
EvParts ==                                 \* the same operation on product and on components
  LET e == Ev IN Keep /\
  Judge(<< <<"Componentwise", Len(e.whole) = Len(e.parts) /\ \A c \in 1..Len(e.parts) :
              StackNear(e.whole[c], e.parts[c], T10)>> >>)

(* ------------------------- strictly positive vectors --------------------- *)
(* columns are tuples of reals; Cols(x) is the stack of diagonal matrices    *)
Cols(x) == [k \in 1..Len(x) |-> Diag(x[k])]
Vec(S) == [k \in 1..Len(S) |-> DiagOf(S[k])]
ColNear(a, b, scale) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : RNear(a[i], b[i], T9, RAdd(RAbs(b[i]), scale[i]))
ZerosLike(x) == [i \in 1..Len(x) |-> RZero]
SameCols(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : ColNear(a[k], b[k], ZerosLike(b[k]))
AbsSum(a, b) == [i \in 1..Len(a) |-> RAdd(RAbs(a[i]), RAbs(b[i]))]
Positive(x) == Len(x) = Mf.k /\ \A k \in 1..Len(x) : Len(x[k]) = n /\ \A i \in 1..n : RLt(RZero, x[k][i])
PerColumn(v, f(_)) == Len(v) = Mf.k /\ \A k \in 1..Mf.k : RNear(v[k], f(k), T9, RAdd(RAbs(f(k)), RFrac(1, 1000000)))
ColInner(k, U, V) == Inner1(Diag(pt[k]), Diag(U[k]), Diag(V[k]))
ColNorm(k, U) == RSqrt(ColInner(k, U, U))
EvVPoint == LET e == Ev IN pt' = e.x /\ Judge(<< <<"StrictlyPositive", Positive(e.x)>>, <<"Dimension", e.dim = Mf.k * n>> >>)
EvVRandVec == LET e == Ev IN Keep /\
  Judge(<< <<"UnitNorm", \A k \in 1..Mf.k : Close(ColNorm(k, e.u), One, One)>>,
           <<"ZeroVector", \A k \in 1..Mf.k : \A i \in 1..n : e.z[k][i] = RZero>> >>)
EvVInner == LET e == Ev IN Keep /\
  Judge(<< <<"InnerProduct", LET f(k) == ColInner(k, e.u, e.v) g(k) == RMul(ColNorm(k, e.u), ColNorm(k, e.v))
                             IN Len(e.s) = Mf.k /\ \A k \in 1..Mf.k : RNear(e.s[k], f(k), T9, RAdd(g(k), RAbs(f(k))))>>,
           <<"Norm", LET f(k) == ColNorm(k, e.u) IN PerColumn(e.norm, f)>>,
           <<"Projection", SameCols(e.proj, e.u)>> >>)
EvVExp == LET e == Ev want == Vec(ExpHPD(Cols(pt), Cols(e.u))) IN pt' = e.y /\
  Judge(<< <<"Exponential", SameCols(e.y, want)>>, <<"StrictlyPositive", Positive(e.y)>>,
           <<"LogOfExp", \A k \in 1..Mf.k : ColNear(e.l[k], e.u[k], [i \in 1..n |-> RMul(RInt(100), RAbs(pt[k][i]))])>> >>)
EvVLog == LET e == Ev IN Keep /\
  Judge(<< <<"Logarithm", SameCols(Vec(ExpHPD(Cols(pt), Cols(e.l))), e.y)>>,
           <<"DistanceIsNormOfLog", LET f(k) == ColNorm(k, e.l) IN PerColumn(e.d, f)>>,
           <<"Symmetric", LET f(k) == ColNorm(k, e.l) IN PerColumn(e.drev, f)>> >>)
EvVRetr == LET e == Ev want == Vec(RetrHPD(Cols(pt), Cols(e.u))) IN Keep /\
  Judge(<< <<"Retraction", \A k \in 1..Mf.k : ColNear(e.r[k], want[k], AbsSum(pt[k], e.u[k]))>>,
           <<"StrictlyPositive", Positive(e.r)>> >>)
EvVGrad == LET e == Ev IN Keep /\
  Judge(<< <<"GradientFormula", SameCols(e.r, Vec(GradHPD(Cols(pt), Cols(e.g))))>>,
           <<"HessianFormula", LET want == Vec(HessHPD(Cols(pt), Cols(e.g), Cols(e.h), Cols(e.u)))
                                   size(k) == AbsSum(Vec(HessHPD(Cols(pt), Cols(e.g), Cols([j \in 1..Mf.k |-> ZerosLike(pt[j])]), Cols(e.u)))[k],
                                                     Vec(GradHPD(Cols(pt), Cols(e.h)))[k])
                               IN \A k \in 1..Mf.k : ColNear(e.hess[k], want[k], size(k))>> >>)
EvVTransport == LET e == Ev
    want == [k \in 1..Mf.k |-> DiagOf(MMul(MMul(Diag(e.y[k]), MInv(Diag(pt[k]))), Diag(e.d[k])))] IN Keep /\
  Judge(<< <<"Transport", SameCols(e.t, want)>>,
           <<"Isometry", \A k \in 1..Mf.k : Close(Inner1(Diag(e.y[k]), Diag(e.t[k]), Diag(e.t[k])), ColInner(k, e.d, e.d), RZero)>> >>)
Next ==
  \/ More /\ CASE Ev.a = "point" -> EvPoint [] Ev.a = "randvec" -> EvRandVec [] Ev.a = "inner" -> EvInner
               [] Ev.a = "proj" -> EvProj [] Ev.a = "grad" -> EvGrad [] Ev.a = "hess" -> EvHess
               [] Ev.a = "exp" -> EvExp [] Ev.a = "log" -> EvLog [] Ev.a = "back" -> EvBack
               [] Ev.a = "transport" -> EvTransport [] Ev.a = "long" -> EvLong [] Ev.a = "short" -> EvShort [] Ev.a = "retr" -> EvRetr
               [] Ev.a = "ppoint" -> EvPPoint [] Ev.a = "pinner" -> EvPInner [] Ev.a = "prandvec" -> EvPRandVec
               [] Ev.a = "pgrad" -> EvPGrad [] Ev.a = "pdist" -> EvPDist [] Ev.a = "parts" -> EvParts
               [] Ev.a = "vpoint" -> EvVPoint [] Ev.a = "vrandvec" -> EvVRandVec [] Ev.a = "vinner" -> EvVInner
               [] Ev.a = "vexp" -> EvVExp [] Ev.a = "vlog" -> EvVLog [] Ev.a = "vretr" -> EvVRetr
               [] Ev.a = "vgrad" -> EvVGrad [] Ev.a = "vtransport" -> EvVTransport
               [] Ev.a = "unexpected" -> UnexpectedFailure /\ Keep
  \/ Finish /\ Keep
=============================================================================
