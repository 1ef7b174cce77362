-------------------------------- MODULE Space --------------------------------
(* How many bytes a structure may use on the heap, as a function of what it represents: the space
   bounds of the documentation with their constants.  The state is what the structure at hand
   represents; every size observed in that state is within the bound. *)
EXTENDS U64
VARIABLE what      \* << kind, n, k, u >>: n elements of width k (or block size k), spanning u
CeilDiv(a, b) == (a + b - 1) \div b
RECURSIVE Lg(_)
Lg(n) == IF n <= 1 THEN 0 ELSE 1 + Lg(CeilDiv(n, 2))              \* least e with 2^e >= n
(* least e with w * 2^e >= u, for w > 0 *)
RECURSIVE Doublings(_, _)
Doublings(w, u) == IF ULeq(u, w) THEN 0 ELSE IF w[1] >= 32768 THEN 1 ELSE 1 + Doublings(UAdd(w, w), u)

(* a bit vector: no overhead but the last word *)
BitsBound(n) == 8 * CeilDiv(n, 64) + 8
(* 28 bits for every 512 bits *)
RsBound(n) == BitsBound(n) + CeilDiv(28 * CeilDiv(n, 512), 8) + 128
(* linear in the number of elements: the bits of the average gap and a constant *)
EfBound(n, u) == IF n = 0 THEN 256 ELSE CeilDiv(n * (Doublings(U64Small(n), u) + 5), 8) + 256
(* one rank/select vector per bit *)
WaveletBound(n, k) == k * (RsBound(n) + 256) + 64
(* the parentheses, and a heap of three numbers per node with a leaf for each block *)
TreeBound(n, b) == RsBound(n) + 24 * (3 * CeilDiv(n, b) + 2)
(* the numbers, and n log n indices *)
TableBound(n) == 8 * n + 4 * n * (Lg(n) + 1) + 64
(* the numbers, and a table over blocks of 128 with two bit masks each *)
RmqBound(n) == 8 * n + 33 * CeilDiv(n, 128) + TableBound(CeilDiv(n, 128)) + 64

Bound(w) == CASE w[1] = "bits" -> BitsBound(w[2])
              [] w[1] = "rs" -> RsBound(w[2])
              [] w[1] = "ef" -> EfBound(w[2], w[4])
              [] w[1] = "wavelet" -> WaveletBound(w[2], w[3])
              [] w[1] = "tree" -> TreeBound(w[2], w[3])
              [] w[1] = "table" -> TableBound(w[2])
              [] w[1] = "rmq" -> RmqBound(w[2])
SInit == what = << "bits", 0, 1, U64Zero >>
SBuild(w) == what' = w
(* reported size, and the bytes of a copy *)
SMeasure(h, c) == what' = what /\ 0 <= h /\ 0 <= c /\ h <= Bound(what) /\ c <= Bound(what)
=============================================================================
