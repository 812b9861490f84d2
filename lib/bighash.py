# hash_g2(zero bytes of that length, b"big"), computed by the reference implementation
BIGH = {
    536870912: ((670661186313688846608375747402563937379384560334137552931951462431887989160022821808270466415229456045452683921837, 3578107954718674500075887058833681386047167943633880774776482457475905774219365265861248721230938495276618797844947), (2275234092220507359947010659055325079355603413238172712445708826033342110950791742844401851573688948960184375123614, 823332662942141336961649388866907532592830721250600835785981965205419514753076373092081510226699830425317794511653)),
    2147483653: ((3983608331049756236222041510540931381895390420567401722735124767705495983566706600401942380910445640796736971515320, 1481351161309559688927791902111757321534103275572361149992249941630163194875286613865282931880808480253807207718313), (3504602754542003921682494778784116618410030458589800563169138270578700658908272949419709053908203241748036413446865, 283408508530988667845891991226853821701129610903471979158228962245862593343575960099708219640795408884239768179394)),
    4294967299: ((1449001682043262189966526083739268621851242666331553613430337252114094932410924037929171902613611693992609223155981, 300988731355834667831872472653873586489216955812997127999225106891505741095016626525418300662699147701807204902771), (3489060813875649644989629077856272642963375891971045058377998451844195880738370054950050440556636409272637049266957, 3936886004626992795869641417201004303127707385926848322417863760289164247064535164116665595383975239857256623796788)),
}
