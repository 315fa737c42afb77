--------------------------------- MODULE Key ---------------------------------
(* The key of a graph. Lengths are integers (thousandths of a point).                                            *)
(* c: [columns, dist, sw, sh, ss, cd, border (-1: no frame), h, v (position in quarters), hin, vin, hd, vd]       *)
(* titles: sequence of [w, h, d] (width, height and depth with respect to the reference point)                    *)
EXTENDS Integers, Sequences
Rows(n, columns) == (n + columns - 1) \div columns
ColOf(i, n, columns) == (i - 1) \div Rows(n, columns)
RowOf(i, n, columns) == (i - 1) % Rows(n, columns)
InCol(k, n, columns) == {i \in 1..n : ColOf(i, n, columns) = k}
NCols(n, columns) == IF n = 0 THEN 0 ELSE ColOf(n, n, columns) + 1
SetMax(s) == CHOOSE m \in s : \A x \in s : x <= m
SetMin(s) == CHOOSE m \in s : \A x \in s : m <= x
\* distance of the references of successive entries of a column: the same for all, the largest title and the distance
Pitch(c, titles, k) == c.dist + SetMax({titles[i].d + titles[i].h : i \in InCol(k, Len(titles), c.columns)})
\* reference points of the titles relative to the first one of the column
RefY(c, titles, i) == -RowOf(i, Len(titles), c.columns) * Pitch(c, titles, ColOf(i, Len(titles), c.columns))
\* where a range of length len goes besides or within lo..lo+size
Placed(lo, size, len, q, dist, inside) ==
  IF inside THEN lo + dist + (q * (size - len - 2 * dist)) \div 4
  ELSE lo + dist + (q * (size - len - 2 * dist)) \div 4 + ((q - 2) * (len + 2 * dist)) \div 2
=============================================================================
