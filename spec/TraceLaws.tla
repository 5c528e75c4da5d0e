----------------------------- MODULE TraceLaws ------------------------------
EXTENDS Laws, TraceBase
vars == <<drawn, base>>
Init == BaseInit /\ drawn = <<>>
T8 == RFrac(1, 100000000)
L == Trace.law
Keep == UNCHANGED drawn
AllClose(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : RNear(a[i], b[i], T8, RAdd(ROne, RAbs(b[i])))
ExpClose(a, b) ==                          \* a_i = exp(b_i)
  Len(a) = Len(b) /\ \A i \in 1..Len(a) :
    IF RLt(b[i], RInt(-700)) THEN RLeq(RAbs(a[i]), RPow2(-900))
    ELSE IF RLt(RInt(700), b[i]) THEN TRUE
    ELSE LET x == RExp(b[i]) IN RNear(a[i], x, RMul(T8, RAdd(ROne, RAbs(b[i]))), x)
EvDensity ==
  LET e == Ev want == LogDensity(L, e.X) IN Keep /\
  Judge(<< <<"ClosedForm", AllClose(e.logpdf, want)>>,
           <<"RealValued", e.kind = "real">>,
           <<"FrozenAgrees", AllClose(e.flogpdf, want)>>,
           <<"PdfIsExp", ExpClose(e.pdf, want)>>,
           <<"FrozenPdfIsExp", ExpClose(e.fpdf, want)>>,
           <<"MismatchWarned", Mismatch(L, e.complex) => \A i \in 1..Len(e.warned) : e.warned[i]>> >>)
EvEntropy ==
  LET e == Ev h == Entropy(L) IN Keep /\
  Judge(<< <<"EntropyClosedForm", \A i \in 1..Len(e.v) : RNear(e.v[i], h, RFrac(1, 1000000), RAdd(ROne, RAbs(h)))>> >>)
(* distribution functions are integrated numerically by the library, to 1e-5 *)
(* in normal circumstances                                                   *)
T3 == RFrac(1, 500)
EvCdf ==
  LET e == Ev IN Keep /\
  Judge(<< <<"CdfClosedForm", (L.fam = "normal" /\ IsDiagonal(L.S)) =>
                LET w == NormalCdf(L, e.X) IN \A i \in 1..Len(w) : RNear(e.v[i], w[i], T3, ROne)>>,
           <<"CdfAtCentre", (e.centre /\ IsDiagonal(L.S)) =>
                \A i \in 1..Len(e.v) : RNear(e.v[i], RPow2(-(Len(L.S) * IF L.complex THEN 2 ELSE 1)), T3, ROne)>>,
           <<"CdfLength", Len(e.v) = Len(e.X)>>,
           <<"CdfFrozenAgrees", Len(e.f) = Len(e.v) /\ \A i \in 1..Len(e.v) : RNear(e.f[i], e.v[i], T3, ROne)>>,
           <<"CdfMonotone", \A i \in 1..Len(e.v) : RLeq(e.v[i], RAdd(e.up[i], T3)) /\ RLeq(RZero, e.v[i]) /\ RLeq(e.v[i], RAdd(ROne, T3))>>,
           <<"LogCdf", \A j \in 1..Len(e.logs) : \A i \in 1..Len(e.v) :
                RLt(RFrac(1, 50), e.v[i]) => RNear(RExp(e.logs[j][i]), e.v[i], T3, ROne)>>,
           <<"CdfMismatchWarned", Mismatch(L, e.complex) => \A i \in 1..Len(e.warned) : e.warned[i]>> >>)
EvDraw ==
  LET e == Ev key == <<e.seed, e.n>> p == Len(L.S) IN
  /\ Draw(key, e.X)
  /\ Judge(<< <<"Shape", e.shape = <<e.n, p>> \/ (e.n = 1 /\ e.shape = <<p>>)
                         \/ (p = 1 /\ e.shape = <<e.n>>) \/ (p = 1 /\ e.n = 1 /\ e.shape = <<>>)>>,
              <<"Rows", Len(e.X) = e.n /\ \A i \in 1..Len(e.X) : Len(e.X[i]) = p>>,
              <<"Kind", e.kind = IF L.complex THEN "complex" ELSE "real">>,
              <<"DeterminedBySeed", Known(key) => e.X = Drawn(key)>>,
              <<"SeedMatters", \A k \in DOMAIN drawn : k[2] = e.n /\ k[1] # e.seed => drawn[k] # e.X>> >>)
(* a second sample from a generator object continues its stream              *)
EvMoments ==
  LET e == Ev N == Len(e.X) C == SecondMoment(L) RC == e.root \* root: C = R R^H
      Ri == MInv(RC)
      p == Len(L.S)
      W(M) == MMul(Ri, MMul(M, MHerm(Ri)))
      white == W(Covariance(e.X, L.m))
      pseudo == MMul(Ri, MMul(PseudoCovariance(e.X, L.m), MTr(Ri)))
      mu == Mean(e.X)
      dm == MMul(Ri, [j \in 1..p |-> <<CSub(mu[j], L.m[j])>>])
  IN Keep /\
  Judge(<< <<"Root", MNear(MMul(RC, MHerm(RC)), C, T8)>>,
           <<"Mean", RLeq(FrobSq(dm), RSq(e.slack))>>,
           <<"Covariance", RLeq(Frob(MSub(white, MId(p))), e.slack2)>>,
           <<"PseudoCovariance", L.complex => RLeq(Frob(pseudo), e.slack2)>> >>)
Next ==
  \/ More /\ CASE Ev.a = "density" -> EvDensity [] Ev.a = "entropy" -> EvEntropy [] Ev.a = "cdf" -> EvCdf
               [] Ev.a = "draw" -> EvDraw [] Ev.a = "moments" -> EvMoments
               [] Ev.a = "unexpected" -> UnexpectedFailure /\ UNCHANGED drawn
  \/ Finish /\ UNCHANGED drawn
=============================================================================
