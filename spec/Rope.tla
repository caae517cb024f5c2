------------------------------- MODULE Rope -------------------------------
(***************************************************************************)
(* Byte strings of any length, run-length encoded.                         *)
(*                                                                         *)
(* A rope is a sequence of runs <<byte, count>>, count >= 1, with adjacent *)
(* runs carrying different bytes.  This form is canonical, so two ropes    *)
(* denote the same byte string iff they are equal, and a 268 435 455 byte  *)
(* payload costs one run.                                                  *)
(*                                                                         *)
(* A cursor into a rope r is a record with fields i (index of the current  *)
(* run), o (bytes of that run already consumed) and n (bytes left in the   *)
(* scope being read: a buffer, a frame, or a property section).            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt

Byte == 0..255

IsRope(r) == /\ \A k \in 1..Len(r) : r[k][1] \in Byte /\ r[k][2] > 0
             /\ \A k \in 1..(Len(r) - 1) : r[k][1] # r[k+1][1]

RLen(r) == FoldLeft(LAMBDA a, x : a + x[2], 0, r)

RRep(b, n) == IF n = 0 THEN <<>> ELSE << <<b, n>> >>
RByte(b)   == << <<b, 1>> >>

(* concatenation, merging the two runs that meet *)
RCat(a, b) ==
  IF a = <<>> THEN b
  ELSE IF b = <<>> THEN a
  ELSE IF a[Len(a)][1] = b[1][1]
       THEN SubSeq(a, 1, Len(a) - 1)
            \o << <<b[1][1], a[Len(a)][2] + b[1][2]>> >>
            \o SubSeq(b, 2, Len(b))
       ELSE a \o b

(* many: by halves, since each RCat copies its arguments *)
RECURSIVE RCatFrom(_, _, _)
RCatFrom(rs, lo, hi) ==
  IF lo > hi THEN <<>>
  ELSE IF lo = hi THEN rs[lo]
  ELSE LET m == (lo + hi) \div 2
       IN RCat(RCatFrom(rs, lo, m), RCatFrom(rs, m + 1, hi))
RCatAll(rs) == RCatFrom(rs, 1, Len(rs))
RBytes(bs)  == RCatAll([i \in 1..Len(bs) |-> RByte(bs[i])])

Cursor(r) == [i |-> 1, o |-> 0, n |-> RLen(r)]

(* position <<i, o>> of the k-th byte after position (i, o), k > 0 bytes on *)
RECURSIVE Walk(_, _, _)
Walk(r, i, k) ==                    \* k counted from the start of run i
  IF k < r[i][2] THEN <<i, k>>
  ELSE IF k = r[i][2] THEN <<i + 1, 0>>
  ELSE Walk(r, i + 1, k - r[i][2])

(* move the cursor c (any record with i, o, n) k bytes on; k <= c.n *)
Adv(r, c, k) ==
  IF k = 0 THEN c
  ELSE LET w == Walk(r, c.i, c.o + k)
       IN [c EXCEPT !.i = w[1], !.o = w[2], !.n = @ - k]

(* the k bytes between the cursor positions c and d = Adv(r, c, k) *)
Between(r, c, d) ==
  IF c.i = d.i
  THEN IF c.o = d.o THEN <<>> ELSE << <<r[c.i][1], d.o - c.o>> >>
  ELSE << <<r[c.i][1], r[c.i][2] - c.o>> >>
       \o SubSeq(r, c.i + 1, d.i - 1)
       \o (IF d.o = 0 THEN <<>> ELSE << <<r[d.i][1], d.o>> >>)
Slice(r, c, k) == IF k = 0 THEN <<>> ELSE Between(r, c, Adv(r, c, k))

RTake(r, n) == Slice(r, Cursor(r), n)
RDrop(r, n) == IF n = 0 THEN r
               ELSE LET c == Adv(r, Cursor(r), n)
                    IN IF c.o = 0 THEN SubSeq(r, c.i, Len(r))
                       ELSE << <<r[c.i][1], r[c.i][2] - c.o>> >>
                            \o SubSeq(r, c.i + 1, Len(r))

(* the k-th byte, 1-based; k <= RLen(r) *)
RAt(r, k) == LET c == Adv(r, Cursor(r), k - 1) IN r[c.i][1]

(* a is a prefix of b; and what then follows it in b *)
RIsPrefix(a, b) ==
  LET m == Len(a) IN
  \/ m = 0
  \/ /\ m <= Len(b)
     /\ a[m][1] = b[m][1]
     /\ a[m][2] <= b[m][2]
     /\ SubSeq(a, 1, m - 1) = SubSeq(b, 1, m - 1)
RSuffix(a, b) ==
  LET m == Len(a) IN
  IF m = 0 THEN b
  ELSE (IF a[m][2] = b[m][2] THEN <<>> ELSE << <<b[m][1], b[m][2] - a[m][2]>> >>)
       \o SubSeq(b, m + 1, Len(b))

(* Expand to plain bytes, keeping at most m bytes of every run. *)
RExpand(r, m) ==
  FoldLeft(LAMBDA a, x : a \o [k \in 1..(IF x[2] < m THEN x[2] ELSE m) |-> x[1]],
           <<>>, r)

(***************************************************************************)
(* UTF-8 well-formedness (RFC 3629).  A run of a byte >= 0x80 longer than  *)
(* three is never well-formed, so four copies of each run decide.          *)
(***************************************************************************)
Cont(b) == b \in 128..191

RECURSIVE Utf8From(_, _)
Utf8From(s, i) ==
  IF i > Len(s) THEN TRUE
  ELSE LET b == s[i]
           l == Len(s) - i + 1
           c2 == l >= 2 /\ Cont(s[i+1])
           c3 == l >= 3 /\ c2 /\ Cont(s[i+2])
           c4 == l >= 4 /\ c3 /\ Cont(s[i+3])
       IN CASE b < 128        -> Utf8From(s, i + 1)
            [] b \in 194..223 -> c2 /\ Utf8From(s, i + 2)
            [] b = 224        -> c3 /\ s[i+1] >= 160 /\ Utf8From(s, i + 3)
            [] b = 237        -> c3 /\ s[i+1] <= 159 /\ Utf8From(s, i + 3)
            [] b \in 225..239 -> c3 /\ Utf8From(s, i + 3)
            [] b = 240        -> c4 /\ s[i+1] >= 144 /\ Utf8From(s, i + 4)
            [] b = 244        -> c4 /\ s[i+1] <= 143 /\ Utf8From(s, i + 4)
            [] b \in 241..243 -> c4 /\ Utf8From(s, i + 4)
            [] OTHER          -> FALSE

RUtf8(r) == IF \A k \in 1..Len(r) : r[k][1] < 128 THEN TRUE
            ELSE Utf8From(RExpand(r, 4), 1)

RHasByte(r, b) == \E k \in 1..Len(r) : r[k][1] = b
=============================================================================
