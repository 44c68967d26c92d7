----------------------------- MODULE NormalTable ------------------------------
(* 1e8 times the probability of a standard normal value between 0 and k/64,     *)
(* for k from 0 to 400, and the posterior probability of gross error from it.   *)
EXTENDS Integers
Half8 == <<
   0, 623322, 1246492, 1869357, 2491767, 3113569, 3734612, 4354747, 4973822, 5591690,
   6208202, 6823210, 7436569, 8048133, 8657760, 9265307, 9870633, 10473599, 11074067, 11671903,
   12266972, 12859142, 13448285, 14034271, 14616977, 15196278, 15772054, 16344187, 16912561, 17477063,
   18037583, 18594012, 19146246, 19694183, 20237723, 20776769, 21311230, 21841014, 22366033, 22886205,
   23401447, 23911682, 24416836, 24916836, 25411615, 25901107, 26385252, 26863989, 27337265, 27805027,
   28267226, 28723818, 29174761, 29620014, 30059544, 30493317, 30921305, 31343481, 31759823, 32170311,
   32574929, 32973663, 33366503, 33753442, 34134475, 34509600, 34878820, 35242138, 35599562, 35951101,
   36296768, 36636578, 36970548, 37298700, 37621054, 37937638, 38248477, 38553602, 38853045, 39146840,
   39435023, 39717631, 39994707, 40266290, 40532426, 40793159, 41048538, 41298611, 41543428, 41783041,
   42017505, 42246873, 42471201, 42690547, 42904969, 43114527, 43319280, 43519290, 43714619, 43905330,
   44091488, 44273155, 44450398, 44623282, 44791872, 44956236, 45116440, 45272551, 45424638, 45572766,
   45717005, 45857422, 45994084, 46127061, 46256419, 46382227, 46504551, 46623460, 46739021, 46851300,
   46960364, 47066279, 47169111, 47268926, 47365787, 47459761, 47550910, 47639297, 47724987, 47808040,
   47888518, 47966482, 48041992, 48115108, 48185887, 48254389, 48320669, 48384785, 48446793, 48506745,
   48564698, 48620703, 48674813, 48727080, 48777553, 48826282, 48873317, 48918705, 48962493, 49004727,
   49045452, 49084713, 49122552, 49159014, 49194138, 49227967, 49260539, 49291894, 49322070, 49351105,
   49379033, 49405892, 49431716, 49456538, 49480392, 49503310, 49525323, 49546461, 49566755, 49586234,
   49604925, 49622856, 49640054, 49656545, 49672354, 49687506, 49702024, 49715931, 49729250, 49742003,
   49754210, 49765892, 49777070, 49787762, 49797986, 49807762, 49817105, 49826034, 49834565, 49842713,
   49850493, 49857921, 49865010, 49871775, 49878228, 49884383, 49890252, 49895846, 49901178, 49906258,
   49911097, 49915706, 49920094, 49924271, 49928246, 49932028, 49935625, 49939045, 49942297, 49945389,
   49948326, 49951116, 49953767, 49956284, 49958673, 49960941, 49963092, 49965133, 49967069, 49968905,
   49970644, 49972293, 49973856, 49975336, 49976737, 49978064, 49979320, 49980509, 49981633, 49982697,
   49983702, 49984653, 49985552, 49986401, 49987203, 49987961, 49988677, 49989352, 49989989, 49990591,
   49991158, 49991693, 49992198, 49992673, 49993122, 49993544, 49993942, 49994316, 49994669, 49995001,
   49995313, 49995607, 49995883, 49996143, 49996387, 49996617, 49996833, 49997036, 49997226, 49997405,
   49997573, 49997730, 49997878, 49998016, 49998146, 49998268, 49998382, 49998489, 49998590, 49998684,
   49998772, 49998854, 49998931, 49999003, 49999071, 49999134, 49999193, 49999248, 49999300, 49999348,
   49999393, 49999435, 49999474, 49999511, 49999545, 49999577, 49999607, 49999634, 49999660, 49999684,
   49999707, 49999728, 49999747, 49999765, 49999782, 49999798, 49999813, 49999826, 49999839, 49999851,
   49999862, 49999872, 49999881, 49999890, 49999898, 49999906, 49999913, 49999919, 49999925, 49999931,
   49999936, 49999941, 49999946, 49999950, 49999954, 49999957, 49999960, 49999963, 49999966, 49999969,
   49999971, 49999974, 49999976, 49999978, 49999979, 49999981, 49999982, 49999984, 49999985, 49999986,
   49999987, 49999988, 49999989, 49999990, 49999991, 49999992, 49999992, 49999993, 49999994, 49999994,
   49999995, 49999995, 49999995, 49999996, 49999996, 49999996, 49999997, 49999997, 49999997, 49999998,
   49999998, 49999998, 49999998, 49999998, 49999998, 49999999, 49999999, 49999999, 49999999, 49999999,
   49999999, 49999999, 49999999, 49999999, 49999999, 49999999, 49999999, 50000000, 50000000, 50000000,
   50000000, 50000000, 50000000, 50000000, 50000000, 50000000, 50000000, 50000000, 50000000, 50000000,
   50000000, 50000000, 50000000, 50000000, 50000000, 50000000, 50000000, 50000000, 50000000, 50000000,
   50000000, 50000000, 50000000, 50000000, 50000000, 50000000, 50000000, 50000000, 50000000, 50000000,
   50000000
>>
Sgn(x) == IF x < 0 THEN -1 ELSE 1
Mag(x) == IF x < 0 THEN -x ELSE x
(* z in 1/65536 of a standard deviation; linear between the points *)
HalfAt(z) == LET m == Mag(z) k == m \div 1024 IN
   Sgn(z) * (IF k >= 400 THEN 50000000 ELSE Half8[k + 1] + ((Half8[k + 2] - Half8[k + 1]) * (m % 1024)) \div 1024)
Between(lo, hi) == HalfAt(hi) - HalfAt(lo)
(* floor(x * y / z) without overflow, for x, z below 2^29 *)
RECURSIVE QR(_, _, _)
QR(x, y, z) == IF y = 0 THEN <<0, 0>>
   ELSE LET h == QR(x, y \div 2, z)
            r == 2 * h[2] + (y % 2) * (x % z)
        IN <<2 * h[1] + (y % 2) * (x \div z) + r \div z, r % z>>
MulDiv(x, y, z) == QR(x, y, z)[1]
(* Bayes' rule, times 1000.  prior = a / b; q, rhi, rlo, x in eighths; mean and  *)
(* deviation in 1e-4.  Good values are normal between the limits, seen to the    *)
(* interval q; gross ones uniform.                                               *)
Z(v, s) == IF Mag(v) >= 20 * s THEN Sgn(v) * 1310720 ELSE MulDiv(Mag(v), 65536, s) * Sgn(v)
Posterior(a, b, q, rhi, rlo, x, mu, s) ==
  IF a = 0 THEN 0 ELSE
  LET At(v, half) == Z(v * 1250 + half * q * 625 - mu, s)
      D == Between(At(x, -1), At(x, 1))
      N == Between(At(rlo, -1), At(rhi, 1))
      t == MulDiv(D, 10000 * (b - a) * (rhi - rlo + q), N)
      g == 10000 * a * q
  IN MulDiv(1000, g, g + t)
(* the same when the deviation is so large that all values in the range are alike *)
PosteriorFlat(a, b) == (1000 * a) \div b
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF lo = hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m <= n \div m THEN Root(n, m, hi) ELSE Root(n, lo, m - 1)
ISqrt(n) == Root(n, 0, 46340)
===============================================================================
