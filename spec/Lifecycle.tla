----------------------------- MODULE Lifecycle ------------------------------
(* Estimator objects over their life: construction, parameter changes, fits  *)
(* that succeed or fail, queries, clones and deep copies.  An object is      *)
(*   [par |-> <<q1, q2, q3>>, fit |-> key or NoFit]                          *)
(* with abstract parameter values (q1 = 3 is an invalid model parameter, q3  *)
(* is the verbosity) and the key <<q1, q2, data, init>> of the fit whose     *)
(* result it holds.  What a fit computes is left to the recursion modules;   *)
(* here a key stands for the result of a fresh estimator.                    *)
EXTENDS Integers, Sequences

VARIABLE objs
NoFit == <<>>
Object(par, fit) == [par |-> par, fit |-> fit]

(* data sets 1 and 2 are sound, the others are not (NaN, infinite, wrong     *)
(* number of dimensions); start 0 is "none", start d in {1,2} fits data d,   *)
(* the others are non-finite or of the wrong size                            *)
SoundData == {1, 2}
ValidFit(par, d, i) == par[1] # 3 /\ d \in SoundData /\ i \in {0, d}
Key(par, d, i) == <<par[1], par[2], d, i>>

New(par)          == objs' = Append(objs, Object(par, NoFit))
SetParam(o, j, v) == objs' = [objs EXCEPT ![o].par[j] = v]
FitOK(o, d, i)    == ValidFit(objs[o].par, d, i)
                     /\ objs' = [objs EXCEPT ![o].fit = Key(objs[o].par, d, i)]
FitFails(o, d, i) == ~ValidFit(objs[o].par, d, i) /\ UNCHANGED objs
Query(o)          == UNCHANGED objs
Clone(o)          == objs' = Append(objs, Object(objs[o].par, NoFit))
DeepCopy(o)       == objs' = Append(objs, objs[o])

(* ---------------- the same, as a function of a recorded call -------------- *)
After(h) ==
  CASE h[1] = "set"   -> [objs EXCEPT ![h[2]].par[h[3]] = h[4]]
    [] h[1] = "fit"   -> IF ValidFit(objs[h[2]].par, h[3], h[4])
                         THEN [objs EXCEPT ![h[2]].fit = Key(objs[h[2]].par, h[3], h[4])] ELSE objs
    [] h[1] = "query" -> objs
    [] h[1] = "clone" -> Append(objs, Object(objs[h[2]].par, NoFit))
    [] h[1] = "copy"  -> Append(objs, objs[h[2]])
=============================================================================
