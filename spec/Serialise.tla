------------------------------ MODULE Serialise ------------------------------
(* Serialised forms are the bytes of the elements in order; type hashes tell  *)
(* types apart; hashes are xxHash.  Numbers are sequences of bytes, least     *)
(* significant first.                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bitwise, SequencesExt
SER == 1  DES == 2  TYPE == 3  XX == 4  FIN == 9
Size(t) == CASE t \in {0, 12, 20, 22, 26} -> 1 [] t \in {1, 6, 23, 28} -> 2 [] t \in {2, 8, 9, 10, 11, 21} -> 4 [] t \in {3, 4, 25, 29} -> 8 [] t \in {5, 24} -> 9 [] t \in {7, 27} -> 72
Single(t) == t < 20
Elements(t, b) == [k \in 1..(Len(b) \div Size(t)) |-> SubSeq(b, (k - 1) * Size(t) + 1, k * Size(t))]
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
Encode(elements) == Flat(elements)
Valid(t, b) == IF Single(t) THEN Len(b) = Size(t) ELSE Len(b) % Size(t) = 0
Decode(t, b) == Elements(t, b)

--------------------------------------------------------------------------------
(* arithmetic on n bytes.  TLC evaluates operator arguments over and over; Do and FoldLeft evaluate theirs once. *)
Do(v, F(_)) == FoldLeft(LAMBDA a, k : F(a), v, <<1>>)
Byte(x, k) == IF k >= 1 /\ k <= Len(x) THEN x[k] ELSE 0
UpTo(n) == [k \in 1..n |-> k]
\* carries what overflows a byte on to the next one
Carry(col(_), n) == FoldLeft(LAMBDA a, k : Do(col(k) + a[1], LAMBDA v : <<v \div 256, Append(a[2], v % 256)>>), <<0, <<>>>>, UpTo(n))[2]
AddN(x, y, n) == Do(<<x, y>>, LAMBDA p : Carry(LAMBDA k : Byte(p[1], k) + Byte(p[2], k), n))
Sub(x, y, n) == Do(<<x, y>>, LAMBDA p : Carry(LAMBDA k : Byte(p[1], k) + 255 - Byte(p[2], k) + (IF k = 1 THEN 1 ELSE 0), n))
Mul(x, y, n) == Do(<<x, y>>, LAMBDA p : Carry(LAMBDA k : FoldLeft(LAMBDA a, j : a + Byte(p[1], j) * Byte(p[2], k + 1 - j), 0, UpTo(k)), n))
XorN(x, y, n) == Do(<<x, y>>, LAMBDA p : Carry(LAMBDA k : Byte(p[1], k) ^^ Byte(p[2], k), n))
\* shifts: by whole bytes, then by bits
Shl(x, b, n) == LET q == b \div 8  r == b % 8 IN Do(x, LAMBDA p : Carry(LAMBDA k : ((Byte(p, k - q) * 2 ^ r) % 256) + (Byte(p, k - q - 1) \div 2 ^ (8 - r)), n))
Shr(x, b, n) == LET q == b \div 8  r == b % 8 IN Do(x, LAMBDA p : Carry(LAMBDA k : (Byte(p, k + q) \div 2 ^ r) + ((Byte(p, k + q + 1) % 2 ^ r) * 2 ^ (8 - r)), n))
Rotl(x, b, n) == Do(x, LAMBDA p : AddN(Shl(p, b, n), Shr(p, 8 * n - b, n), n))

A1 == <<177, 121, 55, 158>>  A2 == <<119, 202, 235, 133>>  A3 == <<61, 174, 178, 194>>  A4 == <<47, 235, 212, 39>>  A5 == <<177, 103, 86, 22>>
B1 == <<135, 202, 235, 133, 177, 121, 55, 158>>  B2 == <<79, 235, 212, 39, 61, 174, 178, 194>>  B3 == <<249, 121, 55, 158, 177, 103, 86, 22>>
B4 == <<99, 174, 178, 194, 119, 202, 235, 133>>  B5 == <<197, 103, 86, 22, 47, 235, 212, 39>>
Small(i, n) == [k \in 1..n |-> IF k = 1 THEN i % 256 ELSE IF k = 2 THEN (i \div 256) % 256 ELSE IF k = 3 THEN i \div 65536 ELSE 0]

Part(b, p, n) == SubSeq(b, p + 1, p + n)
\* the pieces that are left after p bytes: <<position, length>>
Pieces(p, len, sizes) == FoldLeft(LAMBDA a, z : <<a[1] + ((len - a[1]) \div z) * z, a[2] \o [k \in 1..((len - a[1]) \div z) |-> <<a[1] + (k - 1) * z, z>>]>>, <<p, <<>>>>, sizes)[2]
Round32(v, d) == Mul(Rotl(AddN(v, Mul(d, A2, 4), 4), 13, 4), A1, 4)
Stripes32(v, b) == FoldLeft(LAMBDA a, j : <<Round32(a[1], Part(b, 16 * j - 16, 4)), Round32(a[2], Part(b, 16 * j - 12, 4)), Round32(a[3], Part(b, 16 * j - 8, 4)), Round32(a[4], Part(b, 16 * j - 4, 4))>>, v, UpTo(Len(b) \div 16))
Mix(v, n) == AddN(AddN(Rotl(v[1], 1, n), Rotl(v[2], 7, n), n), AddN(Rotl(v[3], 12, n), Rotl(v[4], 18, n), n), n)
XX32(b, seed) ==
  LET head == IF Len(b) >= 16 THEN Do(Stripes32(<<AddN(AddN(seed, A1, 4), A2, 4), AddN(seed, A2, 4), AddN(seed, <<>>, 4), Sub(seed, A1, 4)>>, b), LAMBDA v : Mix(v, 4)) ELSE AddN(seed, A5, 4)
      piece(h, c) == IF c[2] = 4 THEN Mul(Rotl(AddN(h, Mul(Part(b, c[1], 4), A3, 4), 4), 17, 4), A4, 4)
                     ELSE Mul(Rotl(AddN(h, Mul(Part(b, c[1], 1), A5, 4), 4), 11, 4), A1, 4)
      body == FoldLeft(piece, AddN(head, Small(Len(b), 4), 4), Pieces((Len(b) \div 16) * 16, Len(b), <<4, 1>>))
  IN Do(Do(Do(body, LAMBDA h : Mul(XorN(h, Shr(h, 15, 4), 4), A2, 4)), LAMBDA h : Mul(XorN(h, Shr(h, 13, 4), 4), A3, 4)), LAMBDA h : XorN(h, Shr(h, 16, 4), 4))

Round64(v, d) == Mul(Rotl(AddN(v, Mul(d, B2, 8), 8), 31, 8), B1, 8)
Merge64(h, v) == AddN(Mul(XorN(h, Round64(<<>>, v), 8), B1, 8), B4, 8)
Stripes64(v, b) == FoldLeft(LAMBDA a, j : <<Round64(a[1], Part(b, 32 * j - 32, 8)), Round64(a[2], Part(b, 32 * j - 24, 8)), Round64(a[3], Part(b, 32 * j - 16, 8)), Round64(a[4], Part(b, 32 * j - 8, 8))>>, v, UpTo(Len(b) \div 32))
XX64(b, seed) ==
  LET head == IF Len(b) >= 32 THEN Do(Stripes64(<<AddN(AddN(seed, B1, 8), B2, 8), AddN(seed, B2, 8), seed, Sub(seed, B1, 8)>>, b), LAMBDA v : FoldLeft(Merge64, Mix(v, 8), v)) ELSE AddN(seed, B5, 8)
      piece(h, c) == CASE c[2] = 8 -> AddN(Mul(Rotl(XorN(h, Round64(<<>>, Part(b, c[1], 8)), 8), 27, 8), B1, 8), B4, 8)
                       [] c[2] = 4 -> AddN(Mul(Rotl(XorN(h, Mul(Part(b, c[1], 4), B1, 8), 8), 23, 8), B2, 8), B3, 8)
                       [] OTHER -> Mul(Rotl(XorN(h, Mul(Part(b, c[1], 1), B5, 8), 8), 11, 8), B1, 8)
      body == FoldLeft(piece, AddN(head, Small(Len(b), 8), 8), Pieces((Len(b) \div 32) * 32, Len(b), <<8, 4, 1>>))
  IN Do(Do(Do(body, LAMBDA h : Mul(XorN(h, Shr(h, 33, 8), 8), B2, 8)), LAMBDA h : Mul(XorN(h, Shr(h, 29, 8), 8), B3, 8)), LAMBDA h : XorN(h, Shr(h, 32, 8), 8))

--------------------------------------------------------------------------------
InitState == [types |-> <<>>]   \* type -> its hash
Put(f, x, v) == (x :> v) @@ f
Fails(s, e) ==
  CASE e[1] = SER -> IF e[4] = Encode(Elements(e[2], e[3])) THEN {} ELSE {"P28:wrong bytes"}
    [] e[1] = DES -> IF Valid(e[2], e[3])
                     THEN (IF e[4] # 0 THEN {"P28:valid bytes rejected"} ELSE IF e[5] # Encode(Decode(e[2], e[3])) THEN {"P28:wrong value"} ELSE {})
                     ELSE IF e[4] = 0 THEN {"P28:wrong size accepted"} ELSE {}
    [] e[1] = TYPE -> (IF \E t \in DOMAIN s.types : t # e[2] /\ s.types[t] = e[3] THEN {"P28:different types have the same hash"} ELSE {})
                      \cup (IF e[2] \in DOMAIN s.types /\ s.types[e[2]] # e[3] THEN {"P28:hash of a type changes"} ELSE {})
    [] e[1] = XX -> (IF e[4] # XX64(e[3], e[2]) THEN {"P28:wrong 64 bit hash"} ELSE {})
                    \cup (IF e[5] # XX32(e[3], SubSeq(e[2], 1, 4)) THEN {"P28:wrong 32 bit hash"} ELSE {})
    [] e[1] = FIN -> IF e[2] = 2 THEN {"CRASH"} ELSE IF e[2] # 0 THEN {"HANG"} ELSE {}
    [] OTHER -> {}
Step(s, e) == IF e[1] = TYPE THEN [s EXCEPT !.types = Put(@, e[2], e[3])] ELSE s
=============================================================================
