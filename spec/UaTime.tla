------------------------------- MODULE UaTime -------------------------------
(* The time of day in OPC UA: 100 ns since the start of 1601 (UTC), 64 bits. *)
(* Numbers are bytes, least significant first, unless said otherwise.        *)
EXTENDS Naturals, Sequences

RECURSIVE Carry(_, _, _)
Carry(b, j, c) == IF j > Len(b) THEN <<>> ELSE LET x == b[j] + c IN <<x % 256>> \o Carry(b, j + 1, x \div 256)
Zero       == <<0, 0, 0, 0, 0, 0, 0, 0>>
Num(n)     == Carry([Zero EXCEPT ![1] = n], 1, 0)
Plus(a, b) == Carry([j \in 1..8 |-> a[j] + b[j]], 1, 0)
Times(a, k) == Carry([j \in 1..8 |-> a[j] * k], 1, 0)                       \* k at most a few millions

\* from the start of 1601 to the start of 1970: 11644473600 s
Epoch == <<0, 145, 16, 182, 2, 0, 0, 0>>
Ticks(s) == Times(Times(s, 1000), 10000)

\* s: seconds since the start of 1970 in five bytes, most significant first; us: microseconds. Most significant byte first
DateTime(s, us) ==
    LET w == [j \in 1..8 |-> IF j <= 5 THEN s[6 - j] ELSE 0]
        d == Plus(Ticks(Plus(w, Epoch)), Num(us * 10))
    IN  [j \in 1..8 |-> d[9 - j]]
=============================================================================
