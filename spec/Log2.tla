-------------------------------- MODULE Log2 --------------------------------
(* log2 in units of 1/65536 bit (rounded): a table for 1..1500, and beyond it  *)
(* the table of the leading digits, interpolated. The table is checked by     *)
(* the ASSUMEs: exact on powers of two, strictly increasing, additive up to *)
(* rounding on all products in range.                                        *)
EXTENDS Integers, Sequences
BIT == 65536
Log2Tab == <<
  0, 65536, 103872, 131072, 152170, 169408, 183983, 196608, 207744, 217706, 226717, 234944,
  242512, 249519, 256042, 262144, 267876, 273280, 278392, 283242, 287855, 292253, 296456, 300480,
  304340, 308048, 311616, 315055, 318373, 321578, 324678, 327680, 330589, 333412, 336153, 338816,
  341407, 343928, 346384, 348778, 351113, 353391, 355616, 357789, 359914, 361992, 364026, 366016,
  367966, 369876, 371748, 373584, 375385, 377152, 378887, 380591, 382264, 383909, 385525, 387114,
  388677, 390214, 391727, 393216, 394682, 396125, 397547, 398948, 400328, 401689, 403030, 404352,
  405656, 406943, 408212, 409464, 410700, 411920, 413125, 414314, 415488, 416649, 417795, 418927,
  420046, 421152, 422245, 423325, 424394, 425450, 426495, 427528, 428550, 429562, 430562, 431552,
  432532, 433502, 434462, 435412, 436353, 437284, 438206, 439120, 440025, 440921, 441809, 442688,
  443560, 444423, 445279, 446127, 446967, 447800, 448626, 449445, 450256, 451061, 451859, 452650,
  453435, 454213, 454985, 455750, 456510, 457263, 458010, 458752, 459488, 460218, 460942, 461661,
  462375, 463083, 463786, 464484, 465177, 465864, 466547, 467225, 467898, 468566, 469229, 469888,
  470543, 471192, 471838, 472479, 473115, 473748, 474376, 475000, 475620, 476236, 476848, 477456,
  478060, 478661, 479257, 479850, 480439, 481024, 481606, 482185, 482759, 483331, 483898, 484463,
  485024, 485582, 486136, 486688, 487236, 487781, 488323, 488861, 489397, 489930, 490459, 490986,
  491510, 492031, 492549, 493064, 493577, 494086, 494593, 495098, 495599, 496098, 496594, 497088,
  497579, 498068, 498554, 499038, 499519, 499998, 500474, 500948, 501419, 501889, 502355, 502820,
  503282, 503742, 504200, 504656, 505109, 505561, 506010, 506457, 506902, 507345, 507786, 508224,
  508661, 509096, 509528, 509959, 510388, 510815, 511240, 511663, 512084, 512503, 512921, 513336,
  513750, 514162, 514572, 514981, 515387, 515792, 516195, 516597, 516997, 517395, 517791, 518186,
  518579, 518971, 519361, 519749, 520136, 520521, 520904, 521286, 521667, 522046, 522423, 522799,
  523173, 523546, 523918, 524288, 524657, 525024, 525390, 525754, 526117, 526478, 526839, 527197,
  527555, 527911, 528266, 528619, 528971, 529322, 529672, 530020, 530367, 530713, 531057, 531400,
  531742, 532083, 532422, 532761, 533098, 533434, 533768, 534102, 534434, 534765, 535095, 535424,
  535752, 536079, 536404, 536728, 537052, 537374, 537695, 538015, 538334, 538651, 538968, 539284,
  539598, 539912, 540225, 540536, 540847, 541156, 541465, 541772, 542079, 542384, 542689, 542992,
  543295, 543596, 543897, 544197, 544495, 544793, 545090, 545386, 545681, 545975, 546268, 546560,
  546852, 547142, 547432, 547721, 548008, 548295, 548581, 548867, 549151, 549434, 549717, 549999,
  550280, 550560, 550839, 551118, 551396, 551672, 551948, 552224, 552498, 552772, 553045, 553317,
  553588, 553859, 554128, 554397, 554666, 554933, 555200, 555466, 555731, 555995, 556259, 556522,
  556784, 557046, 557307, 557567, 557826, 558085, 558343, 558600, 558857, 559113, 559368, 559622,
  559876, 560129, 560382, 560634, 560885, 561135, 561385, 561634, 561883, 562130, 562378, 562624,
  562870, 563115, 563360, 563604, 563847, 564090, 564332, 564574, 564815, 565055, 565294, 565534,
  565772, 566010, 566247, 566484, 566720, 566955, 567190, 567425, 567658, 567891, 568124, 568356,
  568588, 568818, 569049, 569278, 569508, 569736, 569964, 570192, 570419, 570645, 570871, 571097,
  571322, 571546, 571770, 571993, 572216, 572438, 572660, 572881, 573101, 573322, 573541, 573760,
  573979, 574197, 574415, 574632, 574848, 575064, 575280, 575495, 575710, 575924, 576138, 576351,
  576564, 576776, 576988, 577199, 577410, 577620, 577830, 578039, 578248, 578457, 578665, 578872,
  579079, 579286, 579492, 579698, 579903, 580108, 580313, 580517, 580720, 580923, 581126, 581328,
  581530, 581731, 581932, 582133, 582333, 582533, 582732, 582931, 583129, 583327, 583525, 583722,
  583919, 584115, 584311, 584507, 584702, 584897, 585091, 585285, 585478, 585672, 585864, 586057,
  586249, 586440, 586631, 586822, 587013, 587203, 587392, 587582, 587771, 587959, 588147, 588335,
  588522, 588709, 588896, 589082, 589268, 589454, 589639, 589824, 590008, 590193, 590376, 590560,
  590743, 590926, 591108, 591290, 591472, 591653, 591834, 592014, 592195, 592375, 592554, 592733,
  592912, 593091, 593269, 593447, 593625, 593802, 593979, 594155, 594331, 594507, 594683, 594858,
  595033, 595208, 595382, 595556, 595730, 595903, 596076, 596249, 596421, 596593, 596765, 596936,
  597107, 597278, 597449, 597619, 597789, 597958, 598128, 598297, 598465, 598634, 598802, 598970,
  599137, 599304, 599471, 599638, 599804, 599970, 600136, 600301, 600466, 600631, 600796, 600960,
  601124, 601288, 601451, 601615, 601777, 601940, 602102, 602264, 602426, 602588, 602749, 602910,
  603070, 603231, 603391, 603551, 603710, 603870, 604029, 604187, 604346, 604504, 604662, 604820,
  604977, 605134, 605291, 605448, 605605, 605761, 605917, 606072, 606228, 606383, 606538, 606692,
  606847, 607001, 607155, 607308, 607461, 607615, 607767, 607920, 608072, 608225, 608376, 608528,
  608680, 608831, 608982, 609132, 609283, 609433, 609583, 609733, 609882, 610031, 610180, 610329,
  610478, 610626, 610774, 610922, 611069, 611217, 611364, 611511, 611658, 611804, 611950, 612096,
  612242, 612388, 612533, 612678, 612823, 612968, 613112, 613257, 613401, 613544, 613688, 613831,
  613974, 614117, 614260, 614403, 614545, 614687, 614829, 614970, 615112, 615253, 615394, 615535,
  615676, 615816, 615956, 616096, 616236, 616375, 616515, 616654, 616793, 616932, 617070, 617208,
  617347, 617484, 617622, 617760, 617897, 618034, 618171, 618308, 618444, 618581, 618717, 618853,
  618988, 619124, 619259, 619395, 619530, 619664, 619799, 619933, 620068, 620202, 620335, 620469,
  620602, 620736, 620869, 621002, 621134, 621267, 621399, 621531, 621663, 621795, 621927, 622058,
  622189, 622320, 622451, 622582, 622712, 622843, 622973, 623103, 623233, 623362, 623492, 623621,
  623750, 623879, 624008, 624136, 624265, 624393, 624521, 624649, 624776, 624904, 625031, 625158,
  625285, 625412, 625539, 625665, 625792, 625918, 626044, 626170, 626295, 626421, 626546, 626671,
  626796, 626921, 627046, 627170, 627294, 627419, 627543, 627666, 627790, 627914, 628037, 628160,
  628283, 628406, 628529, 628651, 628774, 628896, 629018, 629140, 629262, 629383, 629505, 629626,
  629747, 629868, 629989, 630110, 630230, 630351, 630471, 630591, 630711, 630830, 630950, 631070,
  631189, 631308, 631427, 631546, 631665, 631783, 631901, 632020, 632138, 632256, 632374, 632491,
  632609, 632726, 632843, 632961, 633077, 633194, 633311, 633427, 633544, 633660, 633776, 633892,
  634008, 634124, 634239, 634354, 634470, 634585, 634700, 634814, 634929, 635044, 635158, 635272,
  635386, 635500, 635614, 635728, 635842, 635955, 636068, 636181, 636295, 636407, 636520, 636633,
  636745, 636858, 636970, 637082, 637194, 637306, 637417, 637529, 637640, 637752, 637863, 637974,
  638085, 638196, 638306, 638417, 638527, 638637, 638748, 638858, 638967, 639077, 639187, 639296,
  639406, 639515, 639624, 639733, 639842, 639951, 640059, 640168, 640276, 640384, 640492, 640600,
  640708, 640816, 640924, 641031, 641139, 641246, 641353, 641460, 641567, 641674, 641780, 641887,
  641993, 642100, 642206, 642312, 642418, 642524, 642629, 642735, 642840, 642946, 643051, 643156,
  643261, 643366, 643471, 643575, 643680, 643784, 643888, 643993, 644097, 644201, 644305, 644408,
  644512, 644615, 644719, 644822, 644925, 645028, 645131, 645234, 645337, 645439, 645542, 645644,
  645746, 645849, 645951, 646053, 646154, 646256, 646358, 646459, 646561, 646662, 646763, 646864,
  646965, 647066, 647167, 647267, 647368, 647468, 647569, 647669, 647769, 647869, 647969, 648069,
  648168, 648268, 648367, 648467, 648566, 648665, 648764, 648863, 648962, 649061, 649159, 649258,
  649356, 649455, 649553, 649651, 649749, 649847, 649945, 650043, 650140, 650238, 650335, 650433,
  650530, 650627, 650724, 650821, 650918, 651014, 651111, 651208, 651304, 651400, 651496, 651593,
  651689, 651785, 651880, 651976, 652072, 652167, 652263, 652358, 652453, 652549, 652644, 652739,
  652834, 652928, 653023, 653118, 653212, 653307, 653401, 653495, 653589, 653683, 653777, 653871,
  653965, 654058, 654152, 654245, 654339, 654432, 654525, 654618, 654711, 654804, 654897, 654990,
  655083, 655175, 655268, 655360, 655452, 655544, 655637, 655729, 655821, 655912, 656004, 656096,
  656187, 656279, 656370, 656462, 656553, 656644, 656735, 656826, 656917, 657008, 657098, 657189,
  657279, 657370, 657460, 657550, 657641, 657731, 657821, 657911, 658000, 658090, 658180, 658269,
  658359, 658448, 658538, 658627, 658716, 658805, 658894, 658983, 659072, 659161, 659249, 659338,
  659426, 659515, 659603, 659691, 659779, 659867, 659955, 660043, 660131, 660219, 660307, 660394,
  660482, 660569, 660656, 660744, 660831, 660918, 661005, 661092, 661179, 661266, 661352, 661439,
  661525, 661612, 661698, 661785, 661871, 661957, 662043, 662129, 662215, 662301, 662387, 662472,
  662558, 662643, 662729, 662814, 662900, 662985, 663070, 663155, 663240, 663325, 663410, 663494,
  663579, 663664, 663748, 663833, 663917, 664001, 664086, 664170, 664254, 664338, 664422, 664506,
  664589, 664673, 664757, 664840, 664924, 665007, 665091, 665174, 665257, 665340, 665423, 665506,
  665589, 665672, 665755, 665837, 665920, 666002, 666085, 666167, 666250, 666332, 666414, 666496,
  666578, 666660, 666742, 666824, 666906, 666987, 667069, 667151, 667232, 667313, 667395, 667476,
  667557, 667638, 667719, 667800, 667881, 667962, 668043, 668124, 668204, 668285, 668365, 668446,
  668526, 668606, 668687, 668767, 668847, 668927, 669007, 669087, 669167, 669246, 669326, 669406,
  669485, 669565, 669644, 669723, 669803, 669882, 669961, 670040, 670119, 670198, 670277, 670356,
  670435, 670513, 670592, 670670, 670749, 670827, 670906, 670984, 671062, 671141, 671219, 671297,
  671375, 671453, 671530, 671608, 671686, 671764, 671841, 671919, 671996, 672074, 672151, 672228,
  672305, 672383, 672460, 672537, 672614, 672691, 672767, 672844, 672921, 672997, 673074, 673151,
  673227, 673303, 673380, 673456, 673532, 673608, 673685, 673761, 673837, 673912, 673988, 674064,
  674140, 674216, 674291, 674367, 674442, 674518, 674593, 674668, 674744, 674819, 674894, 674969,
  675044, 675119, 675194, 675269, 675343, 675418, 675493, 675567, 675642, 675716, 675791, 675865,
  675939, 676014, 676088, 676162, 676236, 676310, 676384, 676458, 676532, 676605, 676679, 676753,
  676826, 676900, 676974, 677047, 677120, 677194, 677267, 677340, 677413, 677486, 677559, 677632,
  677705, 677778, 677851, 677924, 677996, 678069, 678142, 678214, 678287, 678359, 678432, 678504,
  678576, 678648, 678720, 678793, 678865, 678937, 679008, 679080, 679152, 679224, 679296, 679367,
  679439, 679510, 679582, 679653, 679725, 679796, 679867, 679939, 680010, 680081, 680152, 680223,
  680294, 680365, 680436, 680506, 680577, 680648, 680719, 680789, 680860, 680930, 681001, 681071,
  681141, 681212, 681282, 681352, 681422, 681492, 681562, 681632, 681702, 681772, 681842, 681911,
  681981, 682051, 682120, 682190, 682259, 682329, 682398, 682468, 682537, 682606, 682675, 682744,
  682813, 682883, 682951, 683020, 683089, 683158, 683227, 683296, 683364, 683433, 683502, 683570,
  683639, 683707, 683775, 683844, 683912, 683980, 684049, 684117, 684185, 684253, 684321, 684389,
  684457, 684524, 684592, 684660, 684728, 684795, 684863, 684931, 684998, 685066, 685133, 685200,
  685268, 685335, 685402, 685469, 685536, 685604, 685671, 685738, 685804, 685871, 685938, 686005,
  686072, 686138, 686205, 686272, 686338, 686405, 686471, 686538, 686604, 686670, 686737, 686803,
  686869, 686935, 687001, 687067, 687133, 687199, 687265, 687331, 687397, 687463, 687528, 687594,
  687660, 687725, 687791, 687856, 687922, 687987, 688053, 688118, 688183, 688248, 688314, 688379,
  688444, 688509, 688574, 688639, 688704, 688769, 688833, 688898, 688963, 689028, 689092, 689157,
  689221, 689286, 689350, 689415, 689479, 689544, 689608, 689672, 689736, 689801, 689865, 689929,
  689993, 690057, 690121, 690185, 690248, 690312, 690376, 690440, 690503, 690567, 690631, 690694,
  690758, 690821, 690885, 690948, 691011, 691075, 691138, 691201, 691264, 691328, 691391, 691454 >>
LogMax == Len(Log2Tab)
\* log2(0) is taken as 0, as the code does (0 * log 0 = 0)
RECURSIVE Halvings(_)
Halvings(n) == IF n < LogMax THEN 0 ELSE 1 + Halvings(n \div 2)
LgBig(n) == LET k == Halvings(n)
                q == n \div 2 ^ k
            IN k * BIT + Log2Tab[q] + ((Log2Tab[q + 1] - Log2Tab[q]) * (n % (2 ^ k)) + 2 ^ k \div 2) \div 2 ^ k
Lg(n) == IF n <= 0 THEN 0 ELSE IF n <= LogMax THEN Log2Tab[n] ELSE LgBig(n)
LogSane ==
  /\ \A k \in 0 .. 10 : Lg(2 ^ k) = k * BIT
  /\ \A n \in 1 .. LogMax - 1 : Lg(n) < Lg(n + 1)
  /\ \A a \in 1 .. 38 : \A b \in a .. (LogMax \div a) :
        LET d == Lg(a * b) - Lg(a) - Lg(b) IN d \in -2 .. 2
  /\ \A k \in 11 .. 30 : Lg(2 ^ k) = k * BIT
  /\ \A n \in 1 .. 4000 : LET d == Lg(1000 * n) - Lg(1000) - Lg(n) IN d \in -2 .. 2
  /\ \A n \in 1 .. LogMax - 2 : 2 * Lg(n + 1) + 2 >= Lg(n) + Lg(n + 2)
=============================================================================
