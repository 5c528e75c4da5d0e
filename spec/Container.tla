----------------------------- MODULE Container ------------------------------
(* Feature containers as append-only sequences of items.  The state is a     *)
(* sequence of containers, each a sequence of item identifiers; what an item *)
(* looks like (one flat tuple of numbers per component) is looked up in a    *)
(* table.  Selection keys follow the Python conventions, spelled out below.  *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE conts

None == 999                                \* a slice bound that is left out
Clamp(i, lo, hi) == IF i < lo THEN lo ELSE IF i > hi THEN hi ELSE i
(* positions (1-based) selected by start:stop:step in a sequence of length n *)
SliceBounds(n, start, stop, step) ==
  LET lo == IF step > 0 THEN 0 ELSE -1
      hi == IF step > 0 THEN n ELSE n - 1
      fix(i) == Clamp(IF i < 0 THEN i + n ELSE i, lo, hi)
  IN << IF start = None THEN (IF step > 0 THEN 0 ELSE n - 1) ELSE fix(start),
        IF stop = None THEN (IF step > 0 THEN n ELSE -1) ELSE fix(stop) >>
RECURSIVE Stepping(_, _, _)
Stepping(i, stop, step) ==
  IF (step > 0 /\ i >= stop) \/ (step < 0 /\ i <= stop) THEN <<>>
  ELSE <<i + 1>> \o Stepping(i + step, stop, step)
RECURSIVE Marked(_, _)
Marked(mask, i) ==                         \* positions i.. of a 0/1 mask that are set
  IF i > Len(mask) THEN <<>> ELSE (IF mask[i] = 1 THEN <<i>> ELSE <<>>) \o Marked(mask, i + 1)
Wrapped(i, n) == (IF i < 0 THEN i + n ELSE i) + 1
Positions(key, n) ==
  CASE key[1] = "int"   -> <<Wrapped(key[2], n)>>
    [] key[1] = "slice" -> LET b == SliceBounds(n, key[2], key[3], key[4]) IN Stepping(b[1], b[2], key[4])
    [] key[1] = "list"  -> [i \in 1..Len(key[2]) |-> Wrapped(key[2][i], n)]
    [] key[1] = "mask"  -> Marked(key[2], 1)
ValidKey(key, n) ==
  CASE key[1] = "int"   -> key[2] >= -n /\ key[2] < n
    [] key[1] = "slice" -> key[4] # 0
    [] key[1] = "list"  -> \A i \in 1..Len(key[2]) : key[2][i] >= -n /\ key[2][i] < n
    [] key[1] = "mask"  -> Len(key[2]) = n
Pick(s, key) == LET q == Positions(key, Len(s)) IN [i \in 1..Len(q) |-> s[q[i]]]

(* ------------------------------- actions --------------------------------- *)
New            == conts' = Append(conts, <<>>)
Add(c, ids)    == conts' = [conts EXCEPT ![c] = @ \o ids]
Join(c, d)     == conts' = [conts EXCEPT ![c] = @ \o conts[d]]
Take(c, key)   == ValidKey(key, Len(conts[c])) /\ conts' = Append(conts, Pick(conts[c], key))
Rejected(c)    == UNCHANGED conts          \* ill-typed append, key out of range
Look(c)        == UNCHANGED conts          \* export, vectorise, caller reuses its arrays

After(h) ==
  CASE h[1] = "new"  -> Append(conts, <<>>)
    [] h[1] = "add"  -> [conts EXCEPT ![h[2]] = @ \o h[3]]
    [] h[1] = "join" -> [conts EXCEPT ![h[2]] = @ \o conts[h[3]]]
    [] h[1] = "take" -> IF ValidKey(h[3], Len(conts[h[2]])) THEN Append(conts, Pick(conts[h[2]], h[3])) ELSE conts
    [] h[1] \in {"bad", "export", "vectorize", "poke"} -> conts

(* ------------------------------ vectorisation ---------------------------- *)
(* a component is a flat row-major tuple of numbers <<re, im>>, with a shape *)
At(v, p, i, j) == v[(i - 1)*p + j]
HermitianFlat(v, p) == \A i, j \in 1..p : At(v, p, i, j) = <<At(v, p, j, i)[1], -At(v, p, j, i)[2]>>
SkewFlat(v, p)      == \A i, j \in 1..p : At(v, p, i, j) = <<-At(v, p, j, i)[1], At(v, p, j, i)[2]>>
RECURSIVE UpperRow(_, _, _, _)
UpperRow(v, p, i, j) == IF i > p THEN <<>> ELSE IF j > p THEN UpperRow(v, p, i + 1, i + 1)
                        ELSE <<At(v, p, i, j)>> \o UpperRow(v, p, i, j + 1)
SquareShape(s) == Len(s) = 2 /\ s[1] = s[2]
(* values: the components number c of all items of the container             *)
Halved(vals, s) == /\ SquareShape(s)
                   /\ \/ \A i \in 1..Len(vals) : HermitianFlat(vals[i], s[1])
                      \/ \A i \in 1..Len(vals) : SkewFlat(vals[i], s[1])
Flatten(v, s, half) == IF half THEN UpperRow(v, s[1], 1, 1) ELSE v
RECURSIVE RowFrom(_, _, _, _)
RowFrom(item, sig, halves, c) ==
  IF c > Len(sig) THEN <<>> ELSE Flatten(item[c], sig[c], halves[c]) \o RowFrom(item, sig, halves, c + 1)
(* items: sequence of items (tuples of components)                           *)
VectorRows(items, sig) ==
  LET halves == [c \in 1..Len(sig) |-> Halved([i \in 1..Len(items) |-> items[i][c]], sig[c])]
  IN [i \in 1..Len(items) |-> RowFrom(items[i], sig, halves, 1)]
=============================================================================
