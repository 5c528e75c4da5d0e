--------------------------- MODULE TraceGenerators ---------------------------
(* Recorded generator calls against Generators.  e.Z holds the standard      *)
(* draws that the same stream gives; for the two matrices of a low-rank      *)
(* sample both orders of drawing are recorded (e.Z in the order signal,      *)
(* noise and e.Y in the order noise, signal).                                *)
EXTENDS Generators, TraceBase
vars == <<gvars, start, expo, base>>
Init == BaseInit /\ used = 0 /\ owner = <<>> /\ start = <<>> /\ expo = <<1, 1>>
T9 == RFrac(1, 1000000000)
T7 == RFrac(1, 10000000)
Static == UNCHANGED <<start, expo>>
Shape(e, X) == IsMat(X, e.c.p, e.c.n)
NearS(X, Y) == MNearAbs(X, Y, RMul(T9, RAdd(Frob(Y), RPow2(-900))))
KindOf(c) == IF c.complex THEN "complex" ELSE "real"
ModelHolds(e) ==
  CASE e.c.f = "std" -> e.X = e.Z[1]
    [] e.c.f = "normal" -> NearS(e.X, Coloured(e.S, e.Z[1]))
    [] e.c.f = "compound" -> NearS(e.X, Compound(e.t, e.S, e.Z[1]))
    [] e.c.f = "lowrank" -> \/ NearS(e.X, LowRank(e.t, e.U, e.Z[1], e.Z[2]))
                            \/ NearS(e.X, LowRank(e.t, e.U, e.Y[2], e.Y[1]))
EvSample ==
  LET e == Ev IN
  /\ Consume(e.c, l) /\ Static
  /\ Judge(<< <<"Shape", Shape(e, e.X)>>, <<"Kind", e.kind = KindOf(e.c)>>,
              <<"Model", ModelHolds(e)>>, <<"Fresh", e.fresh>>, <<"ArgumentUnchanged", e.same>> >>)
EvCov ==
  LET e == Ev IN
  /\ Consume(e.c, l) /\ Static
  /\ Judge(<< <<"CovShape", IsMat(e.X, e.c.p, e.c.p)>>, <<"CovKind", e.kind = KindOf(e.c)>>,
              <<"CovHermitian", IsHermitian(e.X, T9)>>, <<"CovPositive", IsPD(e.X)>>,
              <<"CovUnitDet", e.c.k = 1 => UnitDet(e.X, T7)>>, <<"Fresh", e.fresh>> >>)
EvFrame ==
  LET e == Ev w == IF e.c.k < e.c.p THEN e.c.k ELSE e.c.p IN
  /\ Consume(e.c, l) /\ Static
  /\ Judge(<< <<"FrameShape", IsMat(e.X, e.c.p, w)>>, <<"FrameKind", e.kind = KindOf(e.c)>>,
              <<"FrameOrthonormal", Orthonormal(e.X, T9)>>, <<"Fresh", e.fresh>> >>)
EvTexture ==
  LET e == Ev IN
  /\ Consume(e.c, l) /\ Static
  /\ Judge(<< <<"TextureShape", IsMat(e.X, e.c.n, 1)>>, <<"TextureKind", e.kind = "real">>,
              <<"TexturePositive", \A j \in 1..Len(e.X) : RLeq(RZero, Re(e.X[j][1]))>>, <<"Fresh", e.fresh>> >>)
EvRefused == Refuse /\ Static /\ Judge(<< <<"WrongFieldRefused", Ev.refused>> >>)

(* large samples: second moments as announced; slack is a number of standard *)
(* deviations                                                                *)
EvMoments ==
  LET e == Ev p == Len(e.X) s == e.slack IN
  /\ UNCHANGED gvars /\ Static
  /\ Judge(<< <<"MomentMean", \A i \in 1..p : Within(RowMean(e.X, i), CZero, s)>>,
              <<"MomentVariance", \A i \in 1..p : \A j \in 1..p :
                   Within(RowMoment(e.X, i, j), IF i = j THEN COne ELSE CZero, RMul(RTwo, s))>>,
              <<"MomentCircular", e.complex => \A i \in 1..p : \A j \in 1..p : Within(RowPseudo(e.X, i, j), CZero, RMul(RTwo, s))>>,
              <<"MomentIndependent", \A i \in 1..p : Within(RowLag(e.X, i), CZero, s)>>,
              <<"MomentReal", e.complex \/ IsReal(e.X)>> >>)
EvTextureMean ==
  LET e == Ev IN
  /\ UNCHANGED gvars /\ Static
  /\ Judge(<< <<"TextureMeanOne", RNear(e.mean, ROne, e.slack, ROne)>>,
              <<"TextureVariance", Has("var", e) => RNear(e.var, e.want, e.slack2, e.want)>> >>)

Next ==
  \/ More /\ CASE Ev.a = "sample" -> EvSample [] Ev.a = "cov" -> EvCov [] Ev.a = "frame" -> EvFrame
               [] Ev.a = "texture" -> EvTexture [] Ev.a = "refused" -> EvRefused
               [] Ev.a = "moments" -> EvMoments [] Ev.a = "texturemean" -> EvTextureMean
               [] Ev.a = "unexpected" -> UnexpectedFailure /\ UNCHANGED gvars /\ Static
  \/ Finish /\ UNCHANGED gvars /\ Static
=============================================================================
