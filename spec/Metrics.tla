------------------------------- MODULE Metrics -------------------------------
(* Corpus-level evaluation metrics: what the statistics of one sentence are, *)
(* how they add up, and which score a sum of statistics has.  Sentences are  *)
(* sequences of tokens (words, or characters for the character variant).     *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL MinM(a, b) == IF a < b THEN a ELSE b
LOCAL MaxOf(A) == CHOOSE x \in A : \A y \in A : y <= x
LOCAL MinOf(A) == CHOOSE x \in A : \A y \in A : x <= y
AbsM(x) == IF x < 0 THEN -x ELSE x

\* ---- n-gram matches
Grams(s, n) == {SubSeq(s, i, i + n - 1) : i \in 1..(Len(s) - n + 1)}
Occurs(s, g) == Cardinality({i \in 1..(Len(s) - Len(g) + 1) : SubSeq(s, i, i + Len(g) - 1) = g})
RECURSIVE SumF(_, _)
SumF(f, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE y \in D : TRUE IN f[x] + SumF(f, D \ {x})
\* an n-gram of the hypothesis is matched at most as often as in the reference that has most of it
Clipped(refs, h, n) == LET G == Grams(h, n) IN
   SumF([g \in G |-> MinM(Occurs(h, g), MaxOf({Occurs(refs[k], g) : k \in 1..Len(refs)}))], G)
Total(h, n) == IF Len(h) >= n THEN Len(h) - n + 1 ELSE 0

\* ---- effective reference length, in thousandths
Closest(refs, h) ==
   LET dist(k) == AbsM(Len(refs[k]) - Len(h))
       best == MinOf({dist(k) : k \in 1..Len(refs)})
       first == MinOf({k \in 1..Len(refs) : dist(k) = best})
   IN Len(refs[first])
LenSum(refs) == SumF([k \in 1..Len(refs) |-> Len(refs[k])], 1..Len(refs))
RefLenOk(kind, refs, h, x) ==      \* x: reported length * 1000
   CASE kind \in {"IBM", "QCRI"} -> x = 1000 * Closest(refs, h)
     [] kind = "NIST" -> x = 1000 * MinOf({Len(refs[k]) : k \in 1..Len(refs)})
     [] kind = "KOEHN" -> AbsM(x * Len(refs) - 1000 * LenSum(refs)) <= Len(refs)

\* statistics: N clipped matches, N totals, hypothesis length, reference length
BleuOk(kind, N, refs, h, st) ==
   /\ Len(st) = 2 * N + 2
   /\ \A n \in 1..N : st[n] = 1000 * Clipped(refs, h, n) /\ st[N + n] = 1000 * Total(h, n)
   /\ st[2 * N + 1] = 1000 * Len(h)
   /\ RefLenOk(kind, refs, h, st[2 * N + 2])

\* ---- sums
RECURSIVE SumSeqs(_, _)
SumSeqs(ss, k) == IF k = 1 THEN ss[1] ELSE LET r == SumSeqs(ss, k - 1) IN [i \in 1..Len(r) |-> r[i] + ss[k][i]]
SumOf(ss) == SumSeqs(ss, Len(ss))
MinusSeq(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
Near(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : AbsM(a[i] - b[i]) <= tol

\* ---- fixed-point logarithm and exponential, in millionths
LnTab == << 0, 693147, 1098612, 1386294, 1609438, 1791759, 1945910, 2079442, 2197225, 2302585, 2397895, 2484907, 
   2564949, 2639057, 2708050, 2772589, 2833213, 2890372, 2944439, 2995732, 3044522, 3091042, 3135494, 3178054, 
   3218876, 3258097, 3295837, 3332205, 3367296, 3401197, 3433987, 3465736, 3496508, 3526361, 3555348, 3583519, 
   3610918, 3637586, 3663562, 3688879, 3713572, 3737670, 3761200, 3784190, 3806662, 3828641, 3850148, 3871201, 
   3891820, 3912023, 3931826, 3951244, 3970292, 3988984, 4007333, 4025352, 4043051, 4060443, 4077537, 4094345, 
   4110874, 4127134, 4143135, 4158883, 4174387, 4189655, 4204693, 4219508, 4234107, 4248495, 4262680, 4276666, 
   4290459, 4304065, 4317488, 4330733, 4343805, 4356709, 4369448, 4382027, 4394449, 4406719, 4418841, 4430817, 
   4442651, 4454347, 4465908, 4477337, 4488636, 4499810, 4510860, 4521789, 4532599, 4543295, 4553877, 4564348, 
   4574711, 4584967, 4595120, 4605170, 4615121, 4624973, 4634729, 4644391, 4653960, 4663439, 4672829, 4682131, 
   4691348, 4700480, 4709530, 4718499, 4727388, 4736198, 4744932, 4753590, 4762174, 4770685, 4779123, 4787492, 
   4795791, 4804021, 4812184, 4820282, 4828314, 4836282, 4844187, 4852030, 4859812, 4867534, 4875197, 4882802, 
   4890349, 4897840, 4905275, 4912655, 4919981, 4927254, 4934474, 4941642, 4948760, 4955827, 4962845, 4969813, 
   4976734, 4983607, 4990433, 4997212, 5003946, 5010635, 5017280, 5023881, 5030438, 5036953, 5043425, 5049856, 
   5056246, 5062595, 5068904, 5075174, 5081404, 5087596, 5093750, 5099866, 5105945, 5111988, 5117994, 5123964, 
   5129899, 5135798, 5141664, 5147494, 5153292, 5159055, 5164786, 5170484, 5176150, 5181784, 5187386, 5192957, 
   5198497, 5204007, 5209486, 5214936, 5220356, 5225747, 5231109, 5236442, 5241747, 5247024, 5252273, 5257495, 
   5262690, 5267858, 5273000, 5278115, 5283204, 5288267, 5293305, 5298317, 5303305, 5308268, 5313206, 5318120, 
   5323010, 5327876, 5332719, 5337538, 5342334, 5347108, 5351858, 5356586, 5361292, 5365976, 5370638, 5375278, 
   5379897, 5384495, 5389072, 5393628, 5398163, 5402677, 5407172, 5411646, 5416100, 5420535, 5424950, 5429346, 
   5433722, 5438079, 5442418, 5446737, 5451038, 5455321, 5459586, 5463832, 5468060, 5472271, 5476464, 5480639, 
   5484797, 5488938, 5493061, 5497168, 5501258, 5505332, 5509388, 5513429, 5517453, 5521461, 5525453, 5529429, 
   5533389, 5537334, 5541264, 5545177, 5549076, 5552960, 5556828, 5560682, 5564520, 5568345, 5572154, 5575949, 
   5579730, 5583496, 5587249, 5590987, 5594711, 5598422, 5602119, 5605802, 5609472, 5613128, 5616771, 5620401, 
   5624018, 5627621, 5631212, 5634790, 5638355, 5641907, 5645447, 5648974, 5652489, 5655992, 5659482, 5662960, 
   5666427, 5669881, 5673323, 5676754, 5680173, 5683580, 5686975, 5690359, 5693732, 5697093, 5700444, 5703782, 
   5707110, 5710427, 5713733, 5717028, 5720312, 5723585, 5726848, 5730100, 5733341, 5736572, 5739793, 5743003, 
   5746203, 5749393, 5752573, 5755742, 5758902, 5762051, 5765191, 5768321, 5771441, 5774552, 5777652, 5780744, 
   5783825, 5786897, 5789960, 5793014, 5796058, 5799093, 5802118, 5805135, 5808142, 5811141, 5814131, 5817111, 
   5820083, 5823046, 5826000, 5828946, 5831882, 5834811, 5837730, 5840642, 5843544, 5846439, 5849325, 5852202, 
   5855072, 5857933, 5860786, 5863631, 5866468, 5869297, 5872118, 5874931, 5877736, 5880533, 5883322, 5886104, 
   5888878, 5891644, 5894403, 5897154, 5899897, 5902633, 5905362, 5908083, 5910797, 5913503, 5916202, 5918894, 
   5921578, 5924256, 5926926, 5929589, 5932245, 5934894, 5937536, 5940171, 5942799, 5945421, 5948035, 5950643, 
   5953243, 5955837, 5958425, 5961005, 5963579, 5966147, 5968708, 5971262, 5973810, 5976351, 5978886, 5981414, 
   5983936, 5986452, 5988961, 5991465, 5993961, 5996452, 5998937, 6001415, 6003887, 6006353, 6008813, 6011267, 
   6013715, 6016157, 6018593, 6021023, 6023448, 6025866, 6028279, 6030685, 6033086, 6035481, 6037871, 6040255, 
   6042633, 6045005, 6047372, 6049733, 6052089, 6054439, 6056784, 6059123, 6061457, 6063785, 6066108, 6068426, 
   6070738, 6073045, 6075346, 6077642, 6079933, 6082219, 6084499, 6086775, 6089045, 6091310, 6093570, 6095825, 
   6098074, 6100319, 6102559, 6104793, 6107023, 6109248, 6111467, 6113682, 6115892, 6118097, 6120297, 6122493, 
   6124683, 6126869, 6129050, 6131226, 6133398, 6135565, 6137727, 6139885, 6142037, 6144186, 6146329, 6148468, 
   6150603, 6152733, 6154858, 6156979, 6159095, 6161207, 6163315, 6165418, 6167516, 6169611, 6171701, 6173786, 
   6175867, 6177944, 6180017, 6182085, 6184149, 6186209, 6188264, 6190315, 6192362, 6194405, 6196444, 6198479, 
   6200509, 6202536, 6204558, 6206576, 6208590, 6210600, 6212606, 6214608, 6216606, 6218600, 6220590, 6222576, 
   6224558, 6226537, 6228511, 6230481, 6232448, 6234411, 6236370, 6238325, 6240276, 6242223, 6244167, 6246107, 
   6248043, 6249975, 6251904, 6253829, 6255750, 6257668, 6259581, 6261492, 6263398, 6265301, 6267201, 6269096, 
   6270988, 6272877, 6274762, 6276643, 6278521, 6280396, 6282267, 6284134, 6285998, 6287859, 6289716, 6291569, 
   6293419, 6295266, 6297109, 6298949, 6300786, 6302619, 6304449, 6306275, 6308098, 6309918, 6311735, 6313548, 
   6315358, 6317165, 6318968, 6320768, 6322565, 6324359, 6326149, 6327937, 6329721, 6331502, 6333280, 6335054, 
   6336826, 6338594, 6340359, 6342121, 6343880, 6345636, 6347389, 6349139, 6350886, 6352629, 6354370, 6356108, 
   6357842, 6359574, 6361302, 6363028, 6364751, 6366470, 6368187, 6369901, 6371612, 6373320, 6375025, 6376727, 
   6378426, 6380123, 6381816, 6383507, 6385194, 6386879, 6388561, 6390241, 6391917, 6393591, 6395262, 6396930, 
   6398595, 6400257, 6401917, 6403574, 6405228, 6406880, 6408529, 6410175, 6411818, 6413459, 6415097, 6416732, 
   6418365, 6419995, 6421622, 6423247, 6424869, 6426488, 6428105, 6429719, 6431331, 6432940, 6434547, 6436150, 
   6437752, 6439350, 6440947, 6442540, 6444131, 6445720, 6447306, 6448889, 6450470, 6452049, 6453625, 6455199, 
   6456770, 6458338, 6459904, 6461468, 6463029, 6464588, 6466145, 6467699, 6469250, 6470800, 6472346, 6473891, 
   6475433, 6476972, 6478510, 6480045, 6481577, 6483107, 6484635, 6486161, 6487684, 6489205, 6490724, 6492240, 
   6493754, 6495266, 6496775, 6498282, 6499787, 6501290, 6502790, 6504288, 6505784, 6507278, 6508769, 6510258, 
   6511745, 6513230, 6514713, 6516193, 6517671, 6519147, 6520621, 6522093, 6523562, 6525030, 6526495, 6527958, 
   6529419, 6530878, 6532334, 6533789, 6535241, 6536692, 6538140, 6539586, 6541030, 6542472, 6543912, 6545350, 
   6546785, 6548219, 6549651, 6551080 >>
Ln(n) == LnTab[n]
LnSmooth == -4605170     \* ln 0.01: stands in for no match
ExpInt == << 1000000, 367879, 135335, 49787, 18316, 6738, 2479, 912, 335, 123, 45, 17, 6, 2, 1, 0, 0, 0, 0, 0, 0, 
   0, 0, 0, 0, 0, 0, 0, 0, 0, 0 >>
ExpHun == << 1000000, 990050, 980199, 970446, 960789, 951229, 941765, 932394, 923116, 913931, 904837, 895834, 886920, 
   878095, 869358, 860708, 852144, 843665, 835270, 826959, 818731, 810584, 802519, 794534, 786628, 778801, 
   771052, 763379, 755784, 748264, 740818, 733447, 726149, 718924, 711770, 704688, 697676, 690734, 683861, 
   677057, 670320, 663650, 657047, 650509, 644036, 637628, 631284, 625002, 618783, 612626, 606531, 600496, 
   594521, 588605, 582748, 576950, 571209, 565525, 559898, 554327, 548812, 543351, 537944, 532592, 527292, 
   522046, 516851, 511709, 506617, 501576, 496585, 491644, 486752, 481909, 477114, 472367, 467666, 463013, 
   458406, 453845, 449329, 444858, 440432, 436049, 431711, 427415, 423162, 418952, 414783, 410656, 406570, 
   402524, 398519, 394554, 390628, 386741, 382893, 379083, 375311, 371577 >>
MulE6(a, b) == ((a \div 1000) * b) \div 1000 + ((a % 1000) * b) \div 1000000
Exp(x) ==      \* x <= 0
   LET y == -x  k == y \div 1000000  r == y % 1000000  a == r \div 10000  b == r % 10000 IN
   IF k > 30 THEN 0
   ELSE MulE6(MulE6(ExpInt[k + 1], ExpHun[a + 1]), 1000000 - b + (b * b) \div 2000000)

\* ---- corpus scores, in millionths.  s: summed statistics in thousandths
RECURSIVE PrecSum(_, _, _, _)
PrecSum(s, N, n, smooth) ==
   IF n = 0 THEN 0 ELSE
   PrecSum(s, N, n - 1, smooth) +
     (IF s[N + n] = 0 THEN 0
      ELSE (IF s[n] = 0 THEN smooth ELSE Ln(s[n] \div 1000)) - Ln(s[N + n] \div 1000))
RECURSIVE AdjSum(_, _, _)     \* QCRI: what a hypothesis without any match would get
AdjSum(s, N, n) == IF n = 0 THEN 0 ELSE AdjSum(s, N, n - 1) - (IF s[N + n] = 0 THEN 0 ELSE Ln(s[N + n] \div 1000 + 1))
NumOrders(s, N) == Cardinality({n \in 1..N : s[N + n] > 0})
Div(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)
\* (hyp - ref - extra) / hyp, in millionths, when the hypothesis is shorter
Brevity(s, N, extra) == LET h == s[2 * N + 1]  r == s[2 * N + 2] IN
   IF h >= r THEN 0
   ELSE LET d == r - h + extra  q == d \div h  m == d % h IN
        \* h is at most some 10^5, so split the division to stay within integers
        -(IF q >= 30 THEN 30000001 ELSE q * 1000000 + ((m * 1000) \div h) * 1000 + ((((m * 1000) % h) * 1000) \div h))
BleuScore(kind, N, s) ==
   IF s[2 * N + 1] = 0 THEN 0
   ELSE LET c == NumOrders(s, N) IN
        IF kind = "QCRI"
          THEN LET b == Brevity(s, N, 1000) IN
               Exp(Div(PrecSum(s, N, N, 0), c) + b) - Exp(b + Div(AdjSum(s, N, N), c))
          ELSE Exp(Div(PrecSum(s, N, N, LnSmooth), c) + Brevity(s, N, 0))
\* the deprecated interface averages over all orders, also those the corpus is too short for
OldBleuScore(N, s) == Exp(Div(PrecSum(s, N, N, LnSmooth), N) + Brevity(s, N, 0))
=============================================================================
