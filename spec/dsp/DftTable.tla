------------------------------ MODULE DftTable ------------------------------
(* cos and sin of 2 pi j / n for j = 0 .. n - 1, times 10^6, rounded (generated).  *)
EXTENDS Integers, Sequences
CosTable == <<
  <<1000000>>,
  <<1000000, 0 - 1000000>>,
  <<1000000, 0 - 500000, 0 - 500000>>,
  <<1000000, 0, 0 - 1000000, 0>>,
  <<1000000, 309017, 0 - 809017, 0 - 809017, 309017>>,
  <<1000000, 500000, 0 - 500000, 0 - 1000000, 0 - 500000, 500000>>,
  <<1000000, 623490, 0 - 222521, 0 - 900969, 0 - 900969, 0 - 222521, 623490>>,
  <<1000000, 707107, 0, 0 - 707107, 0 - 1000000, 0 - 707107, 0, 707107>>,
  <<1000000, 766044, 173648, 0 - 500000, 0 - 939693, 0 - 939693, 0 - 500000, 173648, 766044>>,
  <<1000000, 809017, 309017, 0 - 309017, 0 - 809017, 0 - 1000000, 0 - 809017, 0 - 309017, 309017, 809017>>,
  <<1000000, 841254, 415415, 0 - 142315, 0 - 654861, 0 - 959493, 0 - 959493, 0 - 654861, 0 - 142315, 415415, 841254>>,
  <<1000000, 866025, 500000, 0, 0 - 500000, 0 - 866025, 0 - 1000000, 0 - 866025, 0 - 500000, 0, 500000, 866025>>,
  <<1000000, 885456, 568065, 120537, 0 - 354605, 0 - 748511, 0 - 970942, 0 - 970942, 0 - 748511, 0 - 354605, 120537, 568065, 885456>>,
  <<1000000, 900969, 623490, 222521, 0 - 222521, 0 - 623490, 0 - 900969, 0 - 1000000, 0 - 900969, 0 - 623490, 0 - 222521, 222521, 623490, 900969>>,
  <<1000000, 913545, 669131, 309017, 0 - 104528, 0 - 500000, 0 - 809017, 0 - 978148, 0 - 978148, 0 - 809017, 0 - 500000, 0 - 104528, 309017, 669131, 913545>>,
  <<1000000, 923880, 707107, 382683, 0, 0 - 382683, 0 - 707107, 0 - 923880, 0 - 1000000, 0 - 923880, 0 - 707107, 0 - 382683, 0, 382683, 707107, 923880>>
>>
SinTable == <<
  <<0>>,
  <<0, 0>>,
  <<0, 866025, 0 - 866025>>,
  <<0, 1000000, 0, 0 - 1000000>>,
  <<0, 951057, 587785, 0 - 587785, 0 - 951057>>,
  <<0, 866025, 866025, 0, 0 - 866025, 0 - 866025>>,
  <<0, 781831, 974928, 433884, 0 - 433884, 0 - 974928, 0 - 781831>>,
  <<0, 707107, 1000000, 707107, 0, 0 - 707107, 0 - 1000000, 0 - 707107>>,
  <<0, 642788, 984808, 866025, 342020, 0 - 342020, 0 - 866025, 0 - 984808, 0 - 642788>>,
  <<0, 587785, 951057, 951057, 587785, 0, 0 - 587785, 0 - 951057, 0 - 951057, 0 - 587785>>,
  <<0, 540641, 909632, 989821, 755750, 281733, 0 - 281733, 0 - 755750, 0 - 989821, 0 - 909632, 0 - 540641>>,
  <<0, 500000, 866025, 1000000, 866025, 500000, 0, 0 - 500000, 0 - 866025, 0 - 1000000, 0 - 866025, 0 - 500000>>,
  <<0, 464723, 822984, 992709, 935016, 663123, 239316, 0 - 239316, 0 - 663123, 0 - 935016, 0 - 992709, 0 - 822984, 0 - 464723>>,
  <<0, 433884, 781831, 974928, 974928, 781831, 433884, 0, 0 - 433884, 0 - 781831, 0 - 974928, 0 - 974928, 0 - 781831, 0 - 433884>>,
  <<0, 406737, 743145, 951057, 994522, 866025, 587785, 207912, 0 - 207912, 0 - 587785, 0 - 866025, 0 - 994522, 0 - 951057, 0 - 743145, 0 - 406737>>,
  <<0, 382683, 707107, 923880, 1000000, 923880, 707107, 382683, 0, 0 - 382683, 0 - 707107, 0 - 923880, 0 - 1000000, 0 - 923880, 0 - 707107, 0 - 382683>>
>>
=============================================================================
