------------------------------ MODULE CosTable -------------------------------
(* 1e8 times the cosine of the latitude of the centre of each 1 degree row,    *)
(* from the north pole to the equator.                                         *)
EXTENDS Integers
Cos8 == <<
   872654, 2617695, 4361939, 6104854, 7845910, 9584575, 11320321, 13052619, 14780941, 16504761,
   18223553, 19936793, 21643961, 23344536, 25038000, 26723838, 28401534, 30070580, 31730466, 33380686,
   35020738, 36650123, 38268343, 39874907, 41469324, 43051110, 44619781, 46174861, 47715876, 49242356,
   50753836, 52249856, 53729961, 55193699, 56640624, 58070296, 59482279, 60876143, 62251464, 63607822,
   64944805, 66262005, 67559021, 68835458, 70090926, 71325045, 72537437, 73727734, 74895572, 76040597,
   77162458, 78260816, 79335334, 80385686, 81411552, 82412619, 83388582, 84339145, 85264016, 86162916,
   87035570, 87881711, 88701083, 89493436, 90258528, 90996127, 91706007, 92387953, 93041757, 93667219,
   94264149, 94832366, 95371695, 95881973, 96363045, 96814764, 97236992, 97629601, 97992470, 98325491,
   98628560, 98901586, 99144486, 99357186, 99539620, 99691733, 99813480, 99904822, 99965732, 99996192
>>
RowCos(y) == Cos8[(IF y < 90 THEN y ELSE 179 - y) + 1]
(* a span of xs degrees on the equator, in whole columns of row y *)
Widen(xs, y) == (xs * 100000000) \div RowCos(y)
=============================================================================
