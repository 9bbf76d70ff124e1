------------------------------ MODULE Numeric -------------------------------
(* Fixed-size vectors (component-wise arithmetic, inner and outer products,   *)
(* norms) and discrete Fourier transforms.                                    *)
EXTENDS Str
Dim(a) == 1 .. Len(a)
VSum(f) == FoldLeft(LAMBDA s, x : s + x, 0, f)
Dot(a, b) == VSum([i \in Dim(a) |-> a[i] * b[i]])
VAdd(a, b) == [i \in Dim(a) |-> a[i] + b[i]]
VSub(a, b) == [i \in Dim(a) |-> a[i] - b[i]]
VMul(m, a) == [i \in Dim(a) |-> m * a[i]]
RECURSIVE VLess(_, _)
VLess(a, b) == IF a = <<>> THEN FALSE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE VLess(Tail(a), Tail(b))
Outer(a, b) == CASE Len(a) = 2 -> <<a[1] * b[2] - a[2] * b[1]>>
                 [] Len(a) = 3 -> <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
                 [] OTHER -> <<>>
Mag(x) == IF x < 0 THEN -x ELSE x
\* r is l thousandths of a quantity whose square is q, rounded
RootOf(r, q) == r >= 0 /\ (IF r = 0 THEN 0 ELSE (r - 1) * (r - 1)) <= 1000000 * q /\ 1000000 * q <= (r + 1) * (r + 1)
\* component c, in thousandths, of the vector of length l along a
Along(c, l, a, i) == LET n == Dot(a, a) q == 1000000 * l * l * a[i] * a[i] lo == IF Mag(c) = 0 THEN 0 ELSE Mag(c) - 1 IN
                     /\ (a[i] > 0 => c >= 0) /\ (a[i] < 0 => c <= 0) /\ (a[i] = 0 => c = 0)
                     /\ lo * lo <= q \div n /\ q \div n <= (Mag(c) + 1) * (Mag(c) + 1)
\* complex numbers <<re, im>>; cosines of sixteenths of a turn, times 10^5
Cos16 == <<100000, 92388, 70711, 38268, 0, -38268, -70711, -92388, -100000, -92388, -70711, -38268, 0, 38268, 70711, 92388>>
Cis(k) == <<Cos16[(k % 16) + 1], Cos16[((k + 12) % 16) + 1]>>
CMul(x, y) == <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
CSum(f) == FoldLeft(LAMBDA s, x : <<s[1] + x[1], s[2] + x[2]>>, <<0, 0>>, f)
\* transform of h x w numbers (row by row), each times 10^5; d = 1 forward, -1 backward; h and w divide 16
Dft2(x, h, w, d) == [p \in 1 .. h * w |-> LET u == (p - 1) \div w v == (p - 1) % w IN
   CSum([q \in 1 .. h * w |-> LET y == (q - 1) \div w z == (q - 1) % w IN CMul(x[q], Cis(d * (u * y * (16 \div h) + v * z * (16 \div w))))])]
Close(r, q) == \A i \in 1 .. Len(q) : \A c \in 1 .. 2 : Mag(r[i][c] * 10 - q[i][c]) <= 300
\* exact transform of length 4 (used to check the specification)
I4(k) == CASE k % 4 = 0 -> <<1, 0>> [] k % 4 = 1 -> <<0, 1>> [] k % 4 = 2 -> <<-1, 0>> [] k % 4 = 3 -> <<0, -1>>
Dft4(x, d) == [p \in 1 .. 4 |-> CSum([q \in 1 .. 4 |-> CMul(x[q], I4(d * (p - 1) * (q - 1)))])]
Conv(x, y) == LET n == Len(x) IN [k \in 1 .. n |-> VSum([i \in 1 .. n |-> x[i] * y[((k - i) % n) + 1]])]
Pow2(n) == n \in {2 ^ k : k \in 0 .. 20}
NumericS0(h) == 0
NumericStep(s, e) ==
  LET a == e.a r == e.r
      ok ==
   CASE e.op = "vec" -> LET x == a[2] y == a[3] m == a[4] IN e.x = 0 /\
          r = <<VAdd(x, y), VSub(x, y), VMul(-1, x), VMul(m, x), VMul(m, x), x, Dot(x, y), Outer(x, y), Bit(x = y), Bit(VLess(x, y)), Dot(x, x),
                VAdd(x, y), VSub(x, y), VMul(m, x), x, VMul(m, x), x, [i \in Dim(x) |-> 0], VMul(2, x), 1>>
     [] e.op = "geo" -> LET x == a[2] y == a[3] l == a[4] IN e.x = 0 /\ RootOf(r[1], Dot(x, x)) /\ Mag(r[2] * Dot(y, y) - 1000 * Dot(x, y)) <= Dot(y, y)
                        /\ \A i \in Dim(x) : Along(r[3][i], 1, x, i) /\ Along(r[4][i], l, x, i) /\ Along(r[5][i], 1, x, i) /\ Along(r[6][i], l, x, i)
     [] e.op = "fft" -> IF Pow2(a[2]) /\ Pow2(a[3]) THEN e.x = 0 /\ Close(r[1], Dft2(a[5], a[2], a[3], a[4])) ELSE e.x = 1
     [] e.op = "trip" -> e.x = 0 /\ r = <<a[2]>>
     [] e.op = "conv" -> e.x = 0 /\ r = <<Conv(a[1], a[2])>>
     [] e.op = "tone" -> e.x = 0 /\ r = << <<a[2]>>, <<a[2]>> >>
     [] e.op = "odd" -> e.x = 1
  IN IF ok THEN {s} ELSE {}
=============================================================================
