-------------------------------- MODULE Trig --------------------------------
(* Sines and cosines in 1/10000 of angles in 1/1000 degree, and whole square   *)
(* roots.                                                                      *)
EXTENDS Integers, Sequences
SinTab == <<
   0, 175, 349, 523, 698, 872, 1045, 1219, 1392, 1564,
   1736, 1908, 2079, 2250, 2419, 2588, 2756, 2924, 3090, 3256,
   3420, 3584, 3746, 3907, 4067, 4226, 4384, 4540, 4695, 4848,
   5000, 5150, 5299, 5446, 5592, 5736, 5878, 6018, 6157, 6293,
   6428, 6561, 6691, 6820, 6947, 7071, 7193, 7314, 7431, 7547,
   7660, 7771, 7880, 7986, 8090, 8192, 8290, 8387, 8480, 8572,
   8660, 8746, 8829, 8910, 8988, 9063, 9135, 9205, 9272, 9336,
   9397, 9455, 9511, 9563, 9613, 9659, 9703, 9744, 9781, 9816,
   9848, 9877, 9903, 9925, 9945, 9962, 9976, 9986, 9994, 9998,
   10000
>>
Turn == 360000
(* sine of an angle in 0..90000, by linear interpolation between degrees *)
SinQ(a) == LET k == a \div 1000
               f == a % 1000
           IN IF k >= 90 THEN 10000 ELSE SinTab[k + 1] + ((SinTab[k + 2] - SinTab[k + 1]) * f + 500) \div 1000
Sin(x) == LET a == x % Turn
          IN IF a <= 90000 THEN SinQ(a)
             ELSE IF a <= 180000 THEN SinQ(180000 - a)
             ELSE IF a <= 270000 THEN -SinQ(a - 180000)
             ELSE -SinQ(Turn - a)
Cos(x) == Sin(x + 90000)
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF hi - lo <= 1 THEN lo      \* lo^2 <= n < hi^2
                   ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m)
Sqrt(n) == IF n <= 0 THEN 0 ELSE Root(n, 0, 30000)
=============================================================================
