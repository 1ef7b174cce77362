---------------------------- MODULE BpBigTrace ----------------------------
(* Recorded executions of BpTree on strings of millions of parentheses (C19 - C22) against BpBig.tla. *)
EXTENDS TraceBase, BpBig
VARIABLES ref, T
vars == << l, ref, T >>
P == Trace[ref].pieces
N == PN(T)
Q == ref > 0 /\ UNCHANGED << ref, T >>
TInit == l = 1 /\ ref = 0 /\ T = <<>>
TEpisode == IsEvent("Episode") /\ ref' = 0 /\ T' = <<>>
TBuild == IsEvent("Build") /\ ref' = l /\ (PiecesOK(E0.pieces)) = TRUE /\ T' = TLCEval(PTable(E0.pieces))
TTree == IsEvent("Tree") /\ Q /\ (PIsTree(P, T)) = TRUE
(* what: the query; q: tuples << arguments..., result >> *)
Node(x) == 0 <= x /\ x < N /\ PBit(P, T, x) = 1
Ok(w, q) ==
  CASE w = "excess" -> q[2] = PExcess(P, T, q[1])
    [] w = "bit" -> 0 <= q[1] /\ q[1] < N /\ q[2] = PBit(P, T, q[1])
    [] w = "fwd" -> q[3] = PFwd(P, T, q[1], q[2])
    [] w = "bwd" -> q[3] = PBwd(P, T, q[1], q[2])
    [] w = "close" -> Node(q[1]) /\ q[2] = PClose(P, T, q[1])
    [] w = "open" -> q[1] < N /\ PBit(P, T, q[1]) = 0 /\ q[2] = POpen(P, T, q[1])
    [] w = "enclose" -> q[1] < N /\ q[2] = PEnclose(P, T, q[1])
    [] w = "parent" -> Node(q[1]) /\ q[2] = PEnclose(P, T, q[1])
    [] w = "first_child" -> Node(q[1]) /\ q[2] = PFirstChild(P, T, q[1])
    [] w = "last_child" -> Node(q[1]) /\ q[2] = PLastChild(P, T, q[1])
    [] w = "next_sibling" -> Node(q[1]) /\ q[2] = PNextSib(P, T, q[1])
    [] w = "prev_sibling" -> Node(q[1]) /\ q[2] = PPrevSib(P, T, q[1])
    [] w = "leaf" -> Node(q[1]) /\ q[2] = B2I(PLeaf(P, T, q[1]))
    [] w = "depth" -> Node(q[1]) /\ q[2] = PE(P, T, q[1])
    [] w = "index" -> Node(q[1]) /\ q[2] = POnes(P, T, q[1])
    [] w = "handle" -> Node(q[2]) /\ POnes(P, T, q[2]) = q[1]
    [] w = "kids" -> Node(q[1]) /\ q[2] = PKids(P, T, q[1]) /\ q[3] = q[2]       \* number of children, forwards and backwards
    [] w = "size" -> Node(q[1]) /\ q[2] = PSize(P, T, q[1])
    [] w = "anc" -> Node(q[1]) /\ Node(q[2]) /\ q[3] = PIsAnc(P, T, q[1], q[2])
    [] w = "level_anc" -> Node(q[1]) /\ q[3] = PAnc(P, T, q[1], q[2])
    [] w = "level_next" -> Node(q[1]) /\ q[2] = PLevelNext(P, T, q[1])
    [] w = "level_prev" -> Node(q[1]) /\ q[2] = PLevelPrev(P, T, q[1])
    [] w = "leftmost" -> q[2] = PLeftmost(P, T, q[1])
    [] w = "rightmost" -> q[2] = PRightmost(P, T, q[1])
    [] w = "walk" -> Node(q[1]) /\ q[2] = PSize(P, T, q[1]) /\ q[3] = q[2]       \* length of both traversals of the subtree
    [] OTHER -> FALSE
TQ == IsEvent("Q") /\ Q /\ (\A k \in 1..Len(E0.q) : Ok(E0.what, E0.q[k])) = TRUE
TShape == IsEvent("Shape") /\ Q /\ E0.size = POnes(P, T, N) /\ E0.empty = B2I(N = 0) /\ E0.root = IF N = 0 THEN None ELSE 0
(* C22: the calls were the string; a tree iff they cancel out, else the surplus *)
TBuilt == IsEvent("Built") /\ Q /\ LET e == T[Len(T)][2] IN IF e = 0 THEN E0.ok = 1 ELSE E0.ok = 0 /\ E0.err = e
TNext == TEpisode \/ TBuild \/ TTree \/ TQ \/ TShape \/ TBuilt
TSpec == TInit /\ [][TNext]_vars
=============================================================================
