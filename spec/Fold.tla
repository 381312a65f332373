-------------------------------- MODULE Fold --------------------------------
(* The left fold of the CommunityModules under a name of its own, so that no   *)
(* other name of that module gets in the way of the specifications.            *)
LOCAL INSTANCE SequencesExt
Fold(op(_, _), base, seq) == FoldLeft(op, base, seq)
=============================================================================
