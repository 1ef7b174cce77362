-------------------------------- MODULE Work --------------------------------
(* How much work a query may take, as a function of what the structure represents: the complexities
   of the documentation with constants (machine instructions of an optimised portable build, several
   times what the algorithms need).  The state is the structure at hand; every query leaves it as
   it is and takes no more than the bound of its class. *)
EXTENDS Base
VARIABLE what      \* << kind, n, k >>: n elements or bits, of width or block size k
RECURSIVE Lg(_)
Lg(n) == IF n <= 1 THEN 0 ELSE 1 + Lg((n + 1) \div 2)              \* least e with 2^e >= n

Constant == 1000
RankWork == 1500
(* constant on average, logarithmic at worst *)
SelectWork(n) == 4000 + 300 * Lg(n)
SearchWork(n) == 8000 + 600 * Lg(n)
RmqWork == 5000
WaveletWork(k) == 5000 + 3000 * k
WaveletSelect(n, k) == 5000 + k * SelectWork(n)
(* the scans of two or three blocks, and the way up and down the tree *)
TreeWork(n, b) == 4000 + 64 * b + 600 * Lg(n)

QueryWork(w, q) ==
  CASE w[1] = "bits" -> Constant
    [] w[1] = "rs" /\ q \in {"rank", "get"} -> RankWork
    [] w[1] = "rs" /\ q = "step" -> Constant
    [] w[1] = "rs" -> SelectWork(w[2])
    [] w[1] \in {"ef", "sparse"} /\ q = "step" -> Constant
    [] w[1] \in {"ef", "sparse"} -> SearchWork(w[2])
    [] w[1] = "table" -> Constant
    [] w[1] = "rmq" -> RmqWork
    [] w[1] = "wavelet" /\ q = "select" -> WaveletSelect(w[2], w[3])
    [] w[1] = "wavelet" -> WaveletWork(w[3])
    [] w[1] = "tree" -> TreeWork(w[2], w[3])
(* per element, or per bit *)
BuildWork(w) == CASE w[1] = "rs" -> 50
                  [] w[1] = "ef" -> 600
                  [] w[1] = "rmq" -> 600
                  [] w[1] = "table" -> 400 * (Lg(w[2]) + 1)
                  [] w[1] = "wavelet" -> 400 * w[3]
                  [] w[1] = "tree" -> 300
(* c instructions for m elements, without leaving 32 bits *)
Within(c, m, each) == c <= 20000 \/ (c - 20000) \div Max2(1, m) <= each
WInit == what = << "bits", 0, 1 >>
WBuild(w) == what' = w
WQuery(q, m, c) ==
  /\ what' = what
  /\ CASE q = "scan" -> Within(c, m, 32)
       [] q = "walk" -> Within(c, m, QueryWork(what, q))
       [] q = "build" -> Within(c, m, BuildWork(what))
       [] OTHER -> c <= QueryWork(what, q)
=============================================================================
