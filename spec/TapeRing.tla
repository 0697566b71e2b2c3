------------------------------ MODULE TapeRing ------------------------------
(***************************************************************************)
(* How the implementation does it: symbols that can still be read are in a *)
(* circular buffer which doubles when it is full (it is never filled       *)
(* completely, so that empty and full can be told apart).                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES n,        \* symbols in the source
          buf,      \* the buffer: symbols, or None where there is nothing
          ri,       \* where to read from
          fi, li,   \* first symbol kept, and one past the last
          eor,      \* the source has ended
          spos,     \* position of the head in the source
          taken     \* symbols that were taken from the source
ring == << n, buf, ri, fi, li, eor, spos, taken >>

None == -2

RingInit(len) == /\ n = len /\ buf = << None, None, None, None >>
                 /\ ri = 0 /\ fi = 0 /\ li = 0 /\ eor = FALSE /\ spos = 0 /\ taken = 0

Size == IF fi > li THEN (li + Len(buf)) - fi ELSE li - fi
Inc(i, cap) == IF i + 1 >= cap THEN 0 ELSE i + 1

(* The buffer after a resize, with the first symbol moved to index 0: <<buffer, read index, last index>> *)
Resized == LET cap  == Len(buf)
               size == Size
               at   == [i \in 1 .. 2 * cap |-> IF i <= size THEN buf[((fi + i - 1) % cap) + 1] ELSE None]
               off  == IF ri >= fi THEN ri - fi ELSE ri + cap - fi
           IN  << at, off, size >>

(* One read. The result is the symbol that the head leaves behind. *)
RingRead ==
    IF ri = li
    THEN IF eor THEN UNCHANGED ring
         ELSE IF taken = n THEN eor' = TRUE /\ UNCHANGED << n, buf, ri, fi, li, spos, taken >>
         ELSE LET full == (li + 1) % Len(buf) = fi
                  b    == IF full THEN Resized[1] ELSE buf
                  f    == IF full THEN 0          ELSE fi
                  r    == IF full THEN Resized[2] ELSE ri
                  l    == IF full THEN Resized[3] ELSE li
              IN  /\ buf'   = [b EXCEPT ![l + 1] = taken]
                  /\ taken' = taken + 1
                  /\ fi'    = f
                  /\ li'    = Inc(l, Len(b))
                  /\ ri'    = Inc(r, Len(b))
                  /\ spos'  = spos + 1
                  /\ UNCHANGED << n, eor >>
    ELSE ri' = Inc(ri, Len(buf)) /\ spos' = spos + 1 /\ UNCHANGED << n, buf, fi, li, eor, taken >>

RingBefore == IF fi > ri THEN (ri + Len(buf)) - fi ELSE ri - fi
RingRewind(k) == IF k > RingBefore THEN UNCHANGED ring
                 ELSE LET r == (ri + Len(buf)) - k
                      IN  /\ ri' = IF r >= Len(buf) THEN r - Len(buf) ELSE r
                          /\ spos' = spos - k
                          /\ UNCHANGED << n, buf, fi, li, eor, taken >>
RingCut    == fi' = ri /\ UNCHANGED << n, buf, ri, li, eor, spos, taken >>
RingResize == /\ buf' = Resized[1] /\ fi' = 0 /\ ri' = Resized[2] /\ li' = Resized[3]
              /\ UNCHANGED << n, eor, spos, taken >>

(* Every symbol in the buffer is where the head will look for it *)
RingHolds == \A i \in 0 .. (Size - 1) : buf[((fi + i) % Len(buf)) + 1] = (taken - Size) + i

(* The ring as a tape *)
Abstract == INSTANCE Tape WITH N <- n, pos <- spos, lo <- taken - Size, hi <- taken, ended <- eor
=============================================================================
