---------------------------- MODULE TraceFitted -----------------------------
EXTENDS Fitted, TraceBase
vars == <<fvars, base>>
Init == BaseInit /\ status = "new" /\ loc = <<>> /\ cov = <<>>
T12 == RFrac(1, 1000000000) \* 1e-9
T7  == RFrac(1, 10000000)
FiniteM(S) == \A i \in 1..Len(S) : \A j \in 1..Len(S[i]) : RFinite(S[i][j][1]) /\ RFinite(S[i][j][2])
VNear(u, v, tol) == Len(u) = Len(v) /\ \A i \in 1..Len(u) :
                      RLeq(CAbs(CSub(u[i], v[i])), RMul(tol, RAdd(CAbs(v[i]), RPow2(-40))))

(* a fit of any estimator on data in general position                        *)
EvFit ==
  LET e == Ev IN
  /\ status' = "fitted" /\ loc' = e.loc /\ cov' = e.S
  /\ Judge(<< <<"Square", IsMat(e.S, e.p, e.p)>>,
              <<"Finite", FiniteM(e.S)>>,
              <<"DataType", e.kind = e.field>>,
              <<"Hermitian", IsHermitian(e.S, T12)>>,
              <<"PositiveDefinite", IsPD(e.S)>> >>)
(* a fit of the sample covariance                                            *)
EvSample ==
  LET e == Ev IN
  /\ status' = "fitted" /\ loc' = e.loc /\ cov' = e.S
  /\ Judge(<< <<"Definition", LET C == SampleCovariance(e.X, e.centred) IN
                  MNearAbs(e.S, C, RMul(T12, RAdd(Frob(C), RMul(e.floor, RFrac(1, 1000)))))>>,
              <<"Location", VNear(e.loc, SampleLocation(e.X, e.centred), T12)>>,
              <<"ComplexType", e.kind = "complex">>,
              <<"Semidefinite", IsHermitian(e.S, T12) /\ PSD(e.S, T12)>>,
              <<"StoredOnlyWhenRequested", e.stored = e.wanted>>,
              <<"SingleSampleWarns", e.warned <=> Len(e.X) = 1>> >>)
EvPrecision ==
  LET e == Ev IN UNCHANGED fvars /\
  Judge(<< <<"Precision", IF e.singular THEN IsPInv(cov, e.P, T7) ELSE IsInv(cov, e.P, T7)>> >>)
EvTransform ==
  LET e == Ev IN UNCHANGED fvars /\ Judge(<< <<"TransformIsCovariance", e.S = cov>>, <<"TransformKind", e.kind = e.want>> >>)
EvMahalanobis ==
  LET e == Ev d == SqMahalanobis(e.X, cov, loc) IN UNCHANGED fvars /\
  Judge(<< <<"RealKind", e.kind = "real">>,
           <<"Distances", Len(e.d) = Len(d) /\ \A i \in 1..Len(d) : RNear(e.d[i], d[i], T7, RAdd(d[i], T7))>> >>)
EvScore ==
  LET e == Ev IN UNCHANGED fvars /\
  Judge(<< <<"FiniteRealScore", e.kind = "real" /\ RFinite(e.v)>>,
           <<"GaussianScore", e.law = "gauss" => LET L == GaussScore(e.X, cov, loc, e.field) IN
              RNear(e.v, L, T7, RAdd(ROne, RAbs(L)))>> >>)
EvNorm ==
  LET e == Ev IN UNCHANGED fvars /\
  Judge(<< <<"RealKind", e.kind = "real">>,
           <<"ErrorNorm", IsErrorNorm(e.v, cov, e.T, e.norm, e.scaling, e.squared, T7)>> >>)
EvRejected ==
  LET e == Ev IN UNCHANGED fvars /\ Judge(<< <<"UnknownNormRejected", e.outcome # "ok">> >>)
Next ==
  \/ More /\ CASE Ev.a = "fit" -> EvFit [] Ev.a = "sample" -> EvSample
               [] Ev.a = "precision" -> EvPrecision [] Ev.a = "transform" -> EvTransform
               [] Ev.a = "mahalanobis" -> EvMahalanobis [] Ev.a = "score" -> EvScore
               [] Ev.a = "norm" -> EvNorm [] Ev.a = "rejected" -> EvRejected
               [] Ev.a = "unexpected" -> UnexpectedFailure /\ UNCHANGED fvars
  \/ Finish /\ UNCHANGED fvars
=============================================================================
