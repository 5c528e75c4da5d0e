-------------------------------- MODULE Seed ---------------------------------
(* The global random stream under temporary seed blocks.  A position in a    *)
(* stream is <<seed, ops>>: the draws made since it was seeded.  `blocks` is *)
(* the stack of positions put aside by the blocks that are open.             *)
EXTENDS Integers, Sequences
VARIABLES pos, blocks
svars == <<pos, blocks>>

At(seed) == <<seed, <<>>>>
Draw(k)   == pos' = <<pos[1], Append(pos[2], k)>> /\ UNCHANGED blocks
Reseed(s) == pos' = At(s) /\ UNCHANGED blocks
Enter(s)  == blocks' = Append(blocks, pos) /\ pos' = At(s)
Leave     == /\ blocks # <<>>
             /\ pos' = blocks[Len(blocks)] /\ blocks' = SubSeq(blocks, 1, Len(blocks) - 1)
(* an exception unwinds the blocks down to the one where it is caught        *)
Unwind(depth) ==
  /\ depth < Len(blocks)
  /\ pos' = blocks[depth + 1] /\ blocks' = SubSeq(blocks, 1, depth)
=============================================================================
