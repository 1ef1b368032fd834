"""Recorded grids on which rare techniques act (inputs only, no expectations).

Found by tools/mine_bank.py; box, unique, techniques seen, numbers."""
RAW = """
3x3 1 HiddenTriple 000020000010000030600800000407032009000180070890500002306010004005000098000007000
3x3 1 XWing 001020040030680200050004000700300010000000052000070000500003008600002034390100000
2x4 1 XWing 0000140000300002100700800064000350087034000050006140020000060000
3x3 1 XWing 100000500000080040270000001000038009004200000060049000001023084400000200050000000
4x2 1 XWing 0107020600500100002000670500008004000050108000020602400300000000
3x3 1 HiddenTriple 000600203050049000000000900000400070500000802001308000090104700000060005720050000
3x3 1 HiddenTriple 100300704008060000070010000900006570000090000046001890003000200000253000000607040
3x3 1 HiddenTriple 009000080000052170000003000360000005000000041020001900650097000000400000970030060
3x3 1 HiddenTriple 090004002400201058000000004000000000003072009060400700010000000930507040500080000
2x4 1 XWing 0010000007054260200050100300000000008000083060005002004000000050
3x3 1 HiddenTriple 090247000006000005024080009080154030000300000000000400200070153008000000007003060
3x3 1 XWing 000600028000000500080052170000000010070005000003400809006900000050006040009020003
3x3 1 HiddenTriple 070080002200060000530400000000009400002100530045300006867200000000001003003000600
3x3 1 NakedQuad 000807410007061090000090800020000005000073001650010000000000082100002004030000000
3x3 1 HiddenQuad 030800062001025000050000080000501036000000000000409000010200704074000000060100005
3x3 1 Swordfish 000904805000000217000007000300500721008000340001000500004650000065100900102040000
3x3 1 HiddenTriple 000000090208700000000080100000902800006000000500003019003000900020501000001070064
3x3 1 XWing 007500000003098000090160500009700301020004000000000700001900020000080007080400950
3x3 1 HiddenTriple 300070002007000000025006700001020008000308000000004050060140000070052060059000017
3x3 1 XWing 950603008000009600000100005000940306200008000800000904000500000000096000002000047
4x2 1 XWing 0100400000000631100000003000020000603080500800026005000400700010
3x3 1 HiddenTriple 000031000590000000000620000750003080080005047000000050600104800100200003002008010
3x3 1 XWing 030000000040000189000081024068720090000100060090000800704000000002970005000010000
3x3 1 Swordfish 005004000000800046700003005603002084000040000000007100302001000400320000008000060
3x3 1 XWing 804002007070000000300510000008009610000024030000005004507000008010000000000000460
3x3 1 NakedQuad 006007020750080009020010300048090035000000000900000040000900000070200601009050004
4x2 1 XWing 0003408000600001100500300700000080000050000004020600500300570040
3x3 1 XWing 003002069100850007600700000076000000008000004000010200040003900000000030002085000
3x3 1 NakedQuad 000405020090000004000900008030100000000050006420003080106502000000001800270030400
3x3 1 NakedQuad 000006200010070040000012000000000690060000030780000000002087000900001700008640102
4x2 1 XWing 8004002500000001004031000050080010050070080002000060700002000000
3x3 1 NakedQuad 200000000000200374000085060301500000070300000060047000020604000000000090049000058
3x3 1 Swordfish 000000000800003000000060073060020100501000007030050600370105004005008000600000009
4x2 1 Swordfish 0300200000508000000006500800700304000007000700108060020010000500
3x3 1 NakedQuad 027400010400000009908000020000200000803106070002090000600001000000000380000054100
4x2 1 XWing 0007010030004000000000070001320600000300560400000068003021005000
2x4 1 XWing 0000080400700100408006000836000004030070800000065300704001000020
4x2 1 XWing 0700000020080160000070000100068200200004700050200001000006300800
4x2 1 XWing 0504002610000000030000600008003520068000080000034000000100007300
4x2 1 XWing 0000800010840570004000030100280000037002000700103000000005000100
3x3 1 NakedQuad 410003000000501008002000050000970001000006000004000207000000035000028006091000000
2x4 1 XWing 0060000000140200600080050000740105000602040200300650000800000000
3x3 1 Swordfish,XWing 008000003500008460006030020600002800700105009000800000004310600000000300000504780
3x3 1 NakedQuad 300090080090008012200010000600003008140900000005600007900000074000006830007000000
3x3 1 NakedQuad 000032074000060520000800000050000700203004080700000003090200000000179005001000060
2x4 1 XWing 0501082000020080000850040000000060000230040030000700051601000008
3x3 1 NakedQuad 100200039300074001000080020007000000000040706020000000006000000013005090540000608
3x3 1 Swordfish 000000000090875003580031000036000001800090000005700800200009006000180034000020010
3x3 1 NakedQuad 100008050053700008040000701000074000009030070400900200000083096002400580000000000
2x4 1 XWing 0005013406802000710208000000000000006000350002700000050000008046
3x3 1 NakedQuad 600200000000013000000056000702100060100040007000800300200000050540700803061000002
3x3 1 NakedQuad 100007003500800000308200070000000098007900020000000050003602700060045030000008600
3x3 1 NakedQuad 230900007007060100008007000023080040000705006040006008000000004100000620000003000
3x3 1 Jellyfish 000000000950002600007050800062900003100000000004087500710600290000000000080509060
3x3 1 Swordfish,XWing 002930007090080004000024000600002005400090060950000010000000000000870001086000090
3x3 0 HiddenTriple 436059081512000000090640050003004060041000028050028100104502000005037000070010000
2x4 1 Swordfish 5000031003040000640000000000200840100800010700600063000230000000
3x3 1 Swordfish 062000300040093010000005000800010400090000030010000020056009100000400006030020900
4x2 1 HiddenTriple 8500104640000072000000200360800006500004000060500400000002750000
3x3 1 Swordfish 002070030049300070100609800800000906090240000000800000000010020000004003005000000
2x4 1 XWing 6040080040020000000001300300007200041200800063000000006802000000
2x4 1 HiddenTriple 8200070000008000070006400006000300000106060270100001000004630200
3x3 1 Swordfish 090720003006000021100060059000010000068040000000003005400000060000009002017800000
2x4 1 XWing 0003210004060008700000100670300060070000000015000000000651026000
3x3 1 Swordfish 007840000083200000020009000000923005050080600000000003490000010000601840830000500
3x3 1 Swordfish 000000803000000016800600500000000052400725009070080040720809000010007900003001000
3x3 1 Swordfish 000000004090508000004610700007000900912070600000000030000090075020050100400060000
4x2 1 HiddenTriple,XWing 0000000000084120005200000600030040070030000104700700008000851000
4x2 1 Swordfish 0010200706008100006400020001067004050000300002000076000042000001
3x3 1 Jellyfish 600050900009000000021408000000060009008041700000005030004800060080002400260000000
3x3 1 Swordfish 080007030060040200050008700500000000000009004391060070000473086000000010600010000
3x3 1 HiddenTriple,Swordfish 001802009000001000850300004000009041006000000300040200009000502500000000600500030
4x2 1 Swordfish 0000005020070100000607000080000105002003060085100200003050010200
2x4 1 HiddenTriple 0060000005800007700400080002601014003020000020000001000080267000
4x2 1 Swordfish 0000130000000084000300004002080580500000600405020000200000453708
4x2 1 Swordfish 0480000020000760800000200700400005700300000000400012500000000082
4x2 1 Swordfish 6000021000800030070005004010000000000002100006845400800080630000
3x3 1 Jellyfish,XWing 056900000300076050000000007000300000000064030900005600020003104005009000108000570
4x2 1 Swordfish 3000400000067002000003004600200021000700036000005410006000000800
3x3 1 HiddenQuad,HiddenTriple 100700080300850100004000703000020007900000000058000020096070400210600000005310000
2x4 1 HiddenTriple 0007005008002000500007100008000400004000300600000080020600718500
4x2 1 Swordfish 6400080000023000060003580000060400070200203000150310000000080000
4x2 1 Swordfish 4000000000570001030008600700405000050002000003800008000000210075
2x4 1 Swordfish 0405602000007560000000430000000510400000060018000030500030020000
2x4 1 HiddenTriple,XWing 0030700500000000000032400187000370018050104800024050000702000000
4x2 1 Swordfish 0400560010000073080000650700100070400000800203000003050065008000
4x2 1 Swordfish 0000100000050200000400703800000550003800031045000607800000000000
2x4 1 Swordfish 4007860000240000600040002700000000000040004017008003000600503001
2x4 1 Swordfish 0054060000008000810703000010002004010007000600503080000200001004
4x2 1 HiddenTriple 5080010006000700040080001038004500000030000260000000005073400000
4x2 1 Swordfish,XWing 0604000030000850200080000003040000000600040025800201004000600102
4x2 1 Swordfish 0070080000203006840000000362700076000000000800400006500302000080
4x2 1 Swordfish 3000000606000081030400006007240040000000020000300803500050007000
2x4 1 Swordfish 0080005720030000040500060040030860500400050037004000000000201080
2x4 1 Swordfish 3000800220100300050001000104205010000030080000070008060050003060
2x4 1 HiddenTriple 8000504002000008400807200001006056000230100730000000010008000000
3x3 1 Jellyfish 003760500000100394100000000000400000000051003601039000000000407090000080374000200
2x4 1 Swordfish 0506007060007800072050000008000400004060000005005080000720408300
2x4 1 NakedQuad 0635100000000300120000000020400700080500000600003140800000102000
2x4 1 HiddenTriple 0010028000028006007000040800053061050000040100530080000005200000
2x4 1 Swordfish 0002300060300020400100700700400000000060060080007005200003200058
4x2 1 HiddenTriple 0006000000005708067100503000000000000200003780010028010004002000
2x4 1 HiddenTriple 0007000000400000040036002006005301000080080470050602000700800000
3x3 1 Jellyfish 001000000000030000068410307040307900080000000000600050350001706010000400870020001
2x4 1 Swordfish 0002000000506020040080500806030080040610760000004207008000000700
2x4 1 Swordfish 0006010000000053502000700000500230607000080200000200400070840600
2x4 1 Swordfish 0085000000004000027180607000000100500603000000700018000060070300
2x4 1 Swordfish 2000100003000400004300101050000005700340703400600000780502000000
5x2 0 NakedQuad 030A000000041000A30600A7010052029006743060000000200700000800100003009090348A000109030250000000000603
5x2 0 XWing 80316500A70002000360000030000006074A003000008060000190020580007020081A008014000620030000511064000A02
5x2 0 XWing 80006A90400000006805400000805005870043900000000000672000103078A009200300053801A00A010000090302000A81
3x3 0 HiddenTriple 900800100000090070000000090000000030000230784304087002000900000000600009000700000
4x2 0 XWing 7500600330200000030700000000004700000000007205365081300442060070
3x4 0 HiddenTriple 0040200B0030C0B04A009621000000006800600030A48000390B0060040800000890000000A0000700500000A6C003100B0000000082A0006000009B03009008A700000000005000
3x3 0 HiddenTriple 006000000204080700000500001600903000010000000000000040590062070068417000000005000
3x4 0 HiddenTriple,XWing 0A0020080900000000201A007000500003002000607000450006000C00530457A0010B600000000B00000B020134000A000A00C20000000040B00030B0A00040009C00800000000B
3x4 0 HiddenTriple 00006081004038000000C00206018000500050009000280003085100400B05800029030000002006A000B0000A000000000CB0A0003070C2000060500A03000000000105000C0020
3x4 0 HiddenTriple B150A0900400000100000C9660040080005B300009510000060300002BC900CA247080100A4090000000501080C09042C008000902307000000005BC00000030196710097600C000
5x2 0 HiddenTriple 05700000800390000001003480000A005002370058270003000A0908050000A094005700057600098902374A00A001590000
5x2 0 XWing 4901253000005001700052000097311003600A05000000000880600000009000105803048700006920008009000009A04500
3x3 0 XWing 600100200914300760050076000260908100490010020000600840500000010120500900049200007
5x2 0 XWing 010A40800000260701004600A010000080030094A70000000104000000700000902400000006005A6001200300907000A500
5x2 0 HiddenTriple 00004005000000000030001000005000000309A41400006A02607004000050683001079040000600400600000000A0005240
3x4 0 XWing 0851B000C0007006004001091B92008600000000300100000004000800004003029B0000850090C024A0000050A000060680007000000730082C4000A00C00008570000503000008
3x4 0 HiddenTriple 00000A54B1000000603000002007006000000004500700A0050010200B00060045700002B00023400960002B700060003400008600000003A0007608570000A000090280070C030A
3x4 0 XWing 00B09000000400006100009090C0040608000000000050601006000709425C000201B00042000805001B70031004065020000A1060000071C64805008A070052900000000000300A
5x2 0 Swordfish 02000009079000A00100270094A008040A07009600130000000A900000405904000000A10000406000093014000001209730
2x4 0 XWing 0000000000802063300200000730400000610450600030800003001605481030
3x4 0 XWing 0081000000060B18006900000004300700A00040091000780A000001008209B200000A00002B0100070507000400000030006090042000098BA000000000407008005870030000B0
3x4 0 NakedQuad 0000000670540010008000000000A00000930000000A00603000409000000C0B000009280B0800040030200135A0060C0500102000000640C70050090A700040638009058370A010
5x2 0 HiddenTriple 00020040150007100A0000100050000020008907208376000000A4670000070A050000000000080000792A00000000040300
2x5 0 XWing 12064A000000A00000000008060000000075020840000000008035A260009020508030009784300034800000000A04900080
2x4 0 HiddenTriple 0000000040612000000006000000000063200008010700200200014004005200
2x4 0 XWing 1046007500000000800700047500460300056000000000060100000020840000
2x5 0 XWing 00328000A08900000020000A0140895A00000301009000087600000000000400050100001740000AA2050000907080003050
5x2 0 XWing 05000000A0000070009008A70900010329040080895003007400003500095081A60200009208750004000009000200104008
3x3 0 XWing 000600400400018600860005703300079200020806000600000140150960070004000000096004051
5x2 0 HiddenTriple 02A0500003700132000040300000002800950340037000008009008000570A0004300560034A2810910006500A0000000090
3x4 0 HiddenTriple 09B00A00000000008090B14C080014007020010B928300A7B00030000000C00900060000000020370009730806AB02C08C000065309056040809A00200A0600020001B2079000603
5x2 0 XWing 00102007608A476000510750800093100300A000400270000800860070407200000000080003907450200639170000304020
2x5 0 HiddenTriple 0000940700005000A0000000A00050307050006000006000806000001000801000000010070A800023000706007000000000
5x2 0 HiddenTriple 800300A009000098340003040008002008740001000059060000200005800000000107000036000000000A12005000800000
2x5 0 HiddenTriple 76080030020003786000050042801000000305079000102003A020010690400020090500000A000100000000000065900000
3x3 0 XWing 470800501008020030000017004000038000080000200016040000803170092040000310201000000
2x5 0 XWing 070562080903200000000009400000600A904705017450020006A73020580000000093004000000000930480010560000900
3x3 0 HiddenTriple 000400000005026000080103000409080000802017000057049082091000708004000001008001200
2x5 0 HiddenTriple 000075000263000000A07000600003A0003000000000A00300040050928700000304000000000000000504A000000A000060
3x3 0 HiddenTriple 000640092096310574000200060008020000529704010401056000953000000002501700080000000
5x2 0 XWing 0000000001420700A80600392047000740003900891000030200600904000420907030300600204900000A06030080300000
3x3 0 HiddenTriple 050160000000040000080730004000004050700009010090300276002000007940003600000000025
2x5 0 XWing 090240A000010000000900300000020070009300700000050A05079600009604100000071000400600A50400100090070103
3x3 0 Swordfish 370600004048000205000001378000010083083005026006380059000062000004003001007109602
3x4 0 NakedQuad 5020039C000010B060A00000040000000A000009400000060007500000000004100050230008000000000500320AC400401500000089705306C8010080C1B407000A603000100500
3x3 0 XWing 300001070006000300070008200000800003050000060403056700800007600010560420000000000
3x4 0 NakedQuad A0B000830C0130000020000070000000C0004000000A057000010C300B900100A040B0530B020000000700004570006A2364CB500A09B0C060900700800050000400105A000B0020
2x4 0 HiddenTriple 0600000800050000000600000708065000005070000080000300608400007005
2x5 0 XWing 0007900000068003140009000080001090A5200000200000000001000000054080310000000040900079400A02A060500001
5x2 0 XWing 28060900007A00020300040320090A0690A72504010503407097003508020000005000000004901000A04631000950007420
3x4 0 HiddenTriple 200080053090060150A7020C0A9C0008050101307002000030079020000097C0068000050815307000020000010309C7005008000003A07900060004042300905080608400300000
3x4 0 HiddenTriple 0900320046003008B00000700400500B023006810400000000036A09004B000500040A030A3B0050C09740000000AC250520830C7B040002004AB3000060A00007000B4000083000
2x5 0 XWing A8600000100900A0060531500000A0000000819002018400070000407051800400100005A00069009016000000040090A000
2x5 0 XWing 00A007002030009A00680703400910206901A0009000206003000806903003000200900007800006800A100000A000045002
2x5 0 HiddenTriple 80270000007000020A601A030000076005000000208007000000000000800000000000010200600402A68000003000A02079
2x5 0 XWing 520080001080000540A00080A00560070000800430070001509000100000003000540060047000010400509300A000600295
3x4 0 HiddenTriple 0000780000108A023050009CB9C00400060340000B30600090600000003003000A60010007B302801000000C00000000C6280500704004100026000A7B9010085002580000040700
3x4 0 NakedQuint 00A000C0040000000CA9372000039A00601500C0000820090020030001000400010A020700000000000A000572100604000700000040005400807900000025010000768A00B345C2
2x5 0 HiddenTriple 8471592060008070050000A000400071000060400000041090050A0002701000007054206040010903080704010045000080
5x2 0 Swordfish 06A00001008710300005100879000200090300500000000001003124098A0000500410904010000000036A00700900A05060
2x5 0 HiddenTriple 0200000014004950380040000A00800908000000000A0010000600100078000240000005002000000790A026009010007A30
3x4 0 HiddenTriple,NakedQuad 030B08007AC00200300A000000000C0509000400200B0010000192006005000700080109850C0090070009200307000000000086039001000070040C20A010C4B0500000CB100200
3x3 0 HiddenTriple 647000082900074005010368400000000000000607803503002000006000004000000531000020900
3x3 0 HiddenQuad 204081060100003004306900000000402051000058000000067000000000010400000076508030000
3x4 0 XWing 0308019670C00000400CA0600A0700000010600A00B00400963C000B0000400070096800000600A00700B0000482C000A0C06703018080195000467B700400100509090218670CA0
3x3 0 HiddenTriple 000030500510000300360001807000060000000000004100000000030045008400600003006020075
3x3 0 HiddenTriple 004600000050070340000804700010960003002018079007340005009020500025000004003190862
5x2 0 HiddenTriple 040800200A000200000800003900004000018000000300700500000402005000000000200A03061000500063200000000000
3x3 0 XWing 061079423070043050040060009005730002030002065402000000327050800004900000006000504
5x2 0 HiddenTriple 00A00000003000800210409070630000005000810040003805000706000079000800000680A40007A4000370000070304000
5x2 0 HiddenTriple 0A3000520060000007A40008030000000000780020010A690000000001020010009570009000002059007000033086000000
5x2 0 HiddenTriple 0040000050607000830000600010080080006A00503000001600000000050000004000001000070A00020000000003000164
3x3 0 Swordfish 075604310420301507000578000051000000000109000700430100040200050000080704000746200
3x3 0 XWing 070680900005070240010004630000005000023007050000003000652030091400009500000506800
3x4 0 XWing 870000CB01000000BC30000000080910000024000007000B900080000002004C00700B9A000120B00000C069AB40000060000003400900003000020000570A006000400000090000
5x2 0 HiddenTriple 0000002A10A17026090000007950602010000008000300000409400000A0000000005000210006038200400100000000000A
2x4 0 XWing 4008720100000050162004030040600260000018010200005200300603600020
3x4 0 HiddenTriple,NakedQuad 0BA09000C41008403A0200000008000B0090000000084000C0530000020040000B0000000906000050037001004000090060000000005000030000202007000C6100070000000380
3x3 0 XWing 600700035000010000027060004000800000090000583200003019870500046000000200910000000
3x4 0 NakedQuad CB000A00507600017600C508100000409C3B58003000004A2080B000000C0000810C00B0000069000081000000802009600007000050025003000600A0C604000810071000040AC3
2x5 0 HiddenTriple 0A03001060860000009000800060703040760820000602308005006000001050040000600005000020008006000809300102
3x4 0 XWing 0903070C02B485060A40210000005800100A000B000600C856A70900C0009004B05000001000020000A52C0000000300C05076000003009100C0A80B0825AC31070000000009705C
3x4 0 XWing 7083000C0405C000804010090060400000205040B00900A000000B0002000020001000540005302870C0B0002004509620C60050B900007093C0800110000290000A300051700C00
2x4 0 XWing 0170000500100370003061020302071030000060705310000000248002803000
3x3 0 XWing 000000000301850000027000003070530040103002000950080301000270060760314890000068700
3x4 0 NakedQuad 74020A000000C00009000B000000000005900006B710C0005000000004800000050703B007002100000C09000000520005CB000000000000C07820000B08720030002000A00B4030
2x5 0 HiddenTriple 000000450003204000006037A00000A80000000000000000A0340209070A00000700000795001A0000A106000000080A0930
3x4 0 HiddenTriple,NakedQuad 00800000002A000000060801000000000C0000090870006080042000930B7B0C00A0058002A7B0580100C91805300A00540A70608200300000BA705000004003C0A70703C0050B08
3x3 0 HiddenTriple 001007000000000000807000054200000006700090008090064000000800002000249000010006080
4x2 0 HiddenTriple 0000061000100800380064000700030000000000060000000003400080070150
3x4 0 NakedQuad 408C300001A000A00B00C0092B080000A3003000174080609C405AB807105000700000207000B600090C0A04000600380000620008B400B5000000900409C0000050009BA0005000
3x4 0 HiddenTriple,NakedQuad 005A000000B006AB0000000000000160300090B0000AC00027085004BC00B000070600000C00B938501050860071204B8A306057120400008A090B0602001500003060C940038071
2x5 0 HiddenTriple 00060000A000389010007000040002690023A0002500000000000000080090A00000080A0000060500000004001000095000
2x4 0 HiddenTriple 6700300008700104038070501534807000000005000000030100030800000007
2x5 0 NakedQuad 00A0000000739840020091600200000020050790005087900210009000000000000000600000A0800280A009005A02001809
5x2 0 NakedQuad A0765001000821009000000000030002000A7569006001000050000009000000690400009000300001500307008037A01290
3x4 0 NakedQuad 500780CB6490008A94500C0B0B003500920000000C20050070000A002003B3002100074900030B790108002947005A009CA5000000108470003200000000000000006002100C0000
4x2 0 XWing 0163000050006000300040000070030000100850280070600200100010000700
2x4 0 XWing 0010742020800005006008747820106300004030360000808050000600000250
3x3 0 Swordfish 500703000037906005900002300000080070802370100003600208069020730000009002200030060
5x2 0 NakedQuad 0A0000070000601A02000000000907000005004800000040808000000000000600017A130000060002010000005000009013
2x4 0 XWing 7010400056000034030400000120080787060020000206000001020000073080
3x4 0 NakedQuad 00C90000A013000000006000100000009B000900001030003C00009708A0A0003000009060009000000C9070A801000001A003060008B0005AC32000470809001000C20046B00A00
2x4 0 XWing 8004002600800000120000340000020000012003060700000040075027085001
5x2 0 NakedQuad 000A005300004509A2000030020100801000300600000000000001276000000000200002A000068000040698230600004000
5x2 0 NakedQuad 370009100000500700060308420005020650010400A700941000003670000000000009800501002004630020800502040001
3x4 0 NakedQuad 0C00006001A0400700000000A0060800C0058B612090003068C001090200700040060500000C8600000004003700A000010000A278B000089B000400090A00051000C004008B0007
2x4 0 XWing 4070615050614000600000000700000401035000040003000600000080000006
5x2 0 NakedQuad 00074060A0090200070070900008001000004070483A050100000014A0870003000000070408100000000000102A01830000
2x5 0 NakedQuad 00080102000032900A0010065A7002030A000000A00102000802008010000000A08009000005290008000000000000090500
3x4 0 HiddenQuad 0000001060A0A00600000000B000500000018000000B00050074008025CA00000070000004B0060C00009280A0030000070094608A50000700350000003802000000006030040700
3x4 0 Jellyfish 0005C000020000100BC5A000640172900A000C00460000003070010C0000129C000400605047002010B00B000007000000000080C00600B08000470008A004000010006030000C0A
4x2 0 XWing 4100807600074000030500200000000305003080000800402006070008712304
3x4 0 Swordfish 69B0040A08C000135000006050A900C0020402080100900AB03000000C1200860000C000079010B360001020000000B000500080002720008006003090612730B00C0A0B00001406
2x5 0 HiddenTriple 60000410A200040060000000700005900708000070A13200860003900A0010028000030600207150070045039A0000000000
4x2 0 XWing 0002500000602837100602000020006002030000081000060501047020470310
3x4 0 HiddenTriple,NakedQuad 0100007A400800000020030B05B7A0800C10000010000007000000C2000000C3BA00010000900000067000000600002000003B00700003A0C81920050401020C003A0C0A07600000
5x2 0 Swordfish 016000A2030A00709105060000090AA47901500007910000A662000005080300020050002060080008500000900930450A20
3x3 0 NakedQuad 000000000628000009714960500087500100201090854500600730805070000406100008072000000
5x2 0 NakedQuad 0A0008609200500300000700025100050320790080600000000000900000000050006990000030A000000008000000000005
2x4 0 Swordfish 0005600042630010000004500820000605060003603700018100000000100020
5x2 0 Swordfish 4000A13050058009020050040007200A70008000800014600000004005180000000030010800507004630590022800000364
5x2 0 NakedQuad 2000006090864000000098645000070000008000059004000240020000080050000003601300050000204008700000710000
2x5 0 Swordfish 020A005400700600300060000A000090100567A30A003008000002607000000700460A0000A48307000090A10606A3000058
5x2 0 Swordfish 006490500005030A0006068039005000000800003800050004100000006A0007610008930820A54080000006706200000100
5x2 0 NakedQuad 0000094000040002000000080009040961000000000073010000000080000007051A62010008000000000400009040100708
5x2 0 NakedQuad 000000026300000090000000100300090274805000908A4510A0000009000A00001000030090000550000937800000400020
3x3 0 NakedQuad 007006200304000070009001000000000020603000104802004009000000013401902080750003962
3x3 0 NakedQuad 300000094820049000000000008798000600000070030002000080573000100000591800000703020
2x5 0 Swordfish 7010030000020005300035A02084000025A60907A00000058001080043906872900000000100907200003060510000510000
2x5 0 NakedQuad 5007900030000400080010000030906002100058940000070000002600A000A08920000003A08000A1207503098900400006
4x2 0 XWing 0000080000010370060317801007000200803007070502000000002004100003
4x2 0 XWing 0048250605367000830004000457800010030020500008003205000100613000
2x5 0 NakedQuad 0037009000081A0056000A00000000004806000030090000560090601030537000496A000620350004003000000003402708
5x2 0 Swordfish 70A0043619000010A0070100050000000001000040010290008000007004300020100AA01400082303070069455009000701
5x2 0 Swordfish 0200000008405780090A501900008038006900A7000100004004023100951600008004008000010903000846520000200031
3x3 0 NakedQuad 006340500000000090017960082000000009750003000041090000000704020500009764070006938
5x2 0 NakedQuad 100020800030000000000080020010400000A0360930610A008010400502000200100706000500000040060305006004008A
2x5 0 HiddenQuad 300000700090070A8000000000030010A30000848009000030000000000000620800000601200A03009A5000400004A60007
3x3 0 NakedQuad 600000508040000370103090020000000607005084200809307045200050901000000000056000000
3x3 0 Swordfish 800006700002090506760000040090058010000000000400010005206800970000060008000900260
2x4 0 HiddenTriple 5012000020008005030000007150300400000000480003003081005007302000
3x4 0 NakedQuint C004605000030010500004029050006400A000600C000B09AC008600030102800A000040130900B00080094071000C0070C0240AB0004500C0000A00000090000500000630200000
2x4 0 HiddenTriple 0040030020050638306100207508241006000000000701800700000053000200
3x3 0 Swordfish 072006090618904000000000601096400000704000360000000042007169200060300805000750000
2x5 0 Swordfish 00000500A000050700800009A0005000600005040530000A910800000907000270814000000400000A000020000301600009
3x4 0 HiddenQuad 00000000050003A2000000001000000040000506000B0C70020000000000AB300060C008060000000030015A0B00000008B000000400006900000003002C6A030710570000402000
2x5 0 NakedQuad 050400078280000900373000080A000000009560000700809501400009000000020300200005000948260000A30000040650
5x2 0 Swordfish A09340175008000009007000A000009004076A0000100802090249000100000A069000600000007010A83000900026530801
4x2 0 XWing 8010007000200084000750410080006000023000000510002040000700004002
3x3 0 NakedQuad 800000300324000980067000240040392700700605002002071800200760100000003000073050020
4x2 0 XWing 0008000010008567840067000720048040000000018000400010780620600351
4x2 0 Swordfish 8000605060040007000040080380000008200000160050007406080000000600
3x3 0 Jellyfish 120000800064908025809000060080600900406230000002080406003000001650000090240390650
3x3 0 NakedQuad 982006750006920010305007090400080020100003400038200100200609508000070000000050000
5x2 0 HiddenQuad 680003090021003400A000085A06170060A53209000400003000000670050000810006004010000010A00005000000000000
5x2 0 Swordfish 00100527000A0569030804000012002561000070A0090700000007209000600042A00059000000001804007A000200A00000
5x2 0 Swordfish 41A0038007005030000000304096000A62847301000000080A0000072005500000008000700150060908A0000030045A6000
2x5 0 NakedQuad 0600903000100080A4050003A10026000570000000140200900000090800000008705005002A000100084006000000050200
5x2 0 Jellyfish,NakedQuad 0607000800100000006034005000000000004501000006024701000500000000016358650030000090040031200008100000
2x5 0 NakedQuad 00510009603070004080050000004A000004601000000800300009170000A000429001000000010070006050200400000800
3x4 0 NakedQuint 010B05407C00060000A010004700009C80009800040B00001000B07020C00B00C80030208050000AB43100943000CA0005680001000300065C0040000000430051AB34000B08005C
5x2 0 NakedQuad 0000900000000000091A00000047000000003000080000000000060914830005032801000100500000000000200040058076
2x5 0 NakedQuad 0000806200000070A00808006400009000008070000030010A00740000004900001860008000000010000000020705013000
5x2 0 NakedQuad 009040000A00500490000002067893000800005005000000A0A08413026000490000003A050000100063908A700000090000
2x5 0 Swordfish 03000010A41602090080706304805000106A0500A904000001002A053090057000000A00000109059105A020700089025010
3x4 0 Swordfish 00800900A005000800000B09B900C08004000002003B978130950000020C6B0A0000701020008000B09780000000C600124700000503087B03012A060000120039085000A6000100
4x2 0 HiddenTriple 5000001003012500000000003000000760000052000007010000410502000000
3x3 0 Swordfish,XWing 003000050000053001000600830630000045205300106010065009000094003000200407070030000
5x2 0 Swordfish 004000068078056000A000829A1034140009005000000100704050A00003070040310A3A10005940A200008007007400A300
2x4 0 HiddenTriple 0000000002000700000000000700010400372460000000004010307020000030
3x4 0 HiddenQuad 6000A04C09078A0000002000000500003000C00001970030000000004000000100030A02000930051C0B0904BC020010070C8300000000004530000000070B0000C0005000B00070
3x4 0 HiddenQuad 046B0001A000C0900000021A00000C6000080002A1900000007300150C400000B03A010050006470000200019500070B0000300015006C540B0000900105C00B0023200009500007
3x3 0 Swordfish 568090700000500043040200006090027050080430000000600304004000065056000000100800030
2x5 0 NakedQuad 20000041970650007008000020000400000005030390000000506800040002705000003000A4076000400000000001000605
2x5 0 NakedQuad 500000008009005070A108000050000A6020390506000020930020054006053800602A000003057040000102300000000309
2x5 0 NakedQuad A0805600308000000300309080400500300A2000700600059010000060000070000000000901005009000000000000789000
3x4 0 Swordfish,XWing 1903704200500680007000000209A1805000030005001400600010503097200000B060303050B6C0012A9700000A0004700B0000A2410060243509AC00209A0B000500950000000B
4x2 0 HiddenTriple 0000000038070001005060230030000000821000060320088105000000000007
3x3 0 NakedQuad 001000000000500960004800050170009300006200175080000000500090030300000000040000000
3x3 0 Swordfish 040056008000001050085200710450030001710402805069100302508010007020000004004007500
2x5 0 Swordfish,XWing 00A00694050004000071000020A16006510000A0100300000270059000400800000300A30741000000000000000409031700
2x5 0 NakedQuad 060200A000080009000003000100020000000108A080500600007026000A00000030040060000000004030700130A1000200
3x4 0 Swordfish 70000B06042C0025000001001B007004C05800000001079094C036A00201368004B21000070B200000C4200A570003060001C06B30000210000A90600040B0080C00B00409100805
4x2 0 HiddenTriple 0000015000000000023060000600000000600514010032600380000060205000
3x4 0 Swordfish,XWing 02091B00030050002A34001001030000A0C000000090B0000000700060000A0006400000203180000006006000080003054000030000B9083000075000CB90054801800700002A6C
5x2 0 Swordfish 00800090007903100A00001030000060072309A00060807000000150A00000000040908009700063420000308A0300000450
4x2 0 HiddenTriple 7000031000004007000000034032010060008701000705000000000000700050
3x3 0 Swordfish 003056020209083001600000000900000010100060374070800000007005000400078106001029080
3x4 0 Jellyfish 20439001C005000A700802047A000104600800860070AB00000010007000100050800000470B030000908B070000900005703BC04089C000A90B00000004C200500B00B000008000
2x5 0 NakedQuad 000000082A07A000000101008A09000235070000057010009409806000A300010000400000A0007040600000100090000002
3x4 0 Jellyfish 0000C0020000000000A00600375904806B00ABC800000009009700B02080000091000000000B000010000200057301900A000050090020000300004003020000807C004C0A000000
5x2 0 Swordfish 40000050105001020600000001A000000650900204003500A0050000100600009000400614A0095809000070050000000100
4x2 0 HiddenTriple 1000085080752040463800100001648000100000300002000002000060008700
2x4 0 HiddenTriple 0050000000804000000601300040701568000702006000003008200610006503
3x3 0 Swordfish 791200000000000003020005700000000000205408916900050807060000400000001008008790060
2x4 0 HiddenTriple 0070060030050000200300007010000508001000000104000000000000086004
3x3 0 HiddenTriple,NakedQuad 000000002500000067000205009300080520008402001000030008000524010000067040000000700
3x4 0 NakedQuint A7084B000C0303900A00B061000000570B0000000000CA005000080060000004000006000013000C0540600700400800400B81C60709182C6000040000000000400070B004081300
3x4 0 Swordfish,XWing 3920400006010049231000000000010409030000003000450B00000A2400C00B0061420702A000C080000012A79308000090C800356400007209000000000B0600702070000CA00B
3x3 0 Swordfish 073400000020000030004009620002060000090004000400700005060000140140900070000600090
3x4 0 Swordfish 00104000090A9C015040B000000678C000000760C950000B005000060000B00790000000090C3A00500000C0008046074080A71000000020000000100000B0040009000310000408
4x2 0 HiddenTriple 0000000004070500000000008000074620036070060000033060010000107008
4x2 0 HiddenTriple 0008050000000001007006080060200067810000000000060000020006000003
2x5 0 Swordfish,XWing 1000040620000001400000200000150A0092008006100300070060450000A0700000000000300050635000910850A0006301
3x4 0 Swordfish 0020384000000B009003A0020380027960B0000000210A0000C080A0B00000612050004004A07060012090000AC013860008003047504000500602007000A3B0080900920B100000
2x5 0 NakedQuad 0800003000A702030904003009040050802006000070480A3500080200A30400005000000700000100013008000020750000
2x4 0 HiddenTriple 0000000000004005030215000400000017000003200000013006000040000002
3x4 0 Jellyfish 0000087600250030710000040000005026007160000089A000000500400060A804017009008A0000510B0000000AC0400B00A0003C602300160090080950801C043010040300050A
2x5 0 Swordfish A0700030903400A1025700400000A06820570000001000076006000500030902000500000140008910370040000364008915
3x4 0 HiddenQuad 0B000000A01CC000A00007980105600000B00070030C6A0000003500C000000000010005000200000000560000004C79A00306005000200C50800B000050020000806300000200C0
3x4 0 HiddenQuad,HiddenTriple 0A00007B0000007200060C0030000048C000C80306000070700082B30060020060A509000000000040000C60B08007A5095A27000801800000000B50000B0100800400005000B000
3x4 0 Swordfish 08CB050006003501020040C00210000090B0000008B50010000510270000A700C400B0500400B053000013520000008B00006A0000008C495B002A0000008C9B50305B90207A6C00
2x4 0 HiddenTriple 0030806470050000000065870000300530004000000320400051002000000103
3x3 0 NakedQuad 000071523005293000000000000700310602600050300000020000500000060080000100100000058
4x2 0 HiddenTriple 0000005006050371506030800000000000400000057800000000000040500163
3x3 0 NakedQuad 056100003000000650049705120000007000005201000210400576000070000021000000060802000
3x4 0 NakedQuint 0000500003000010000004070002AB507090500C916002A07906000A30B000007006C080000A030000040000B000461C4100000B070000014000000008000000004000A025400806
4x2 0 Swordfish 0000000007120530000602500008040008003005502008070160008040800062
3x4 0 Swordfish 00360025700A0700000A8B00A81050000000C00000340200000A100049020A75208B00400004007008C000600092000100000C001000710000A00C36800000C00000630080090500
3x4 0 Swordfish 700A10B0090C9008000A0050000007C003000000C9000680B6500280C03000065003000A20A340560C00000900A00060419000000007A001900058C00B000A6C00008C6B00010A00
4x2 0 HiddenTriple 0001002007000000000000600076005416000547050006310360540204100000
3x3 0 NakedQuad 000470809000060040009201000160003002900006703530000000000090234000008000200030008
3x3 0 NakedQuad 069000020800020000000060070000000090040090102098130006057003600302610050406709003
3x4 0 NakedQuad,NakedQuint 05B0C0190430000003008005806000470029300090B0060C00000030005100A0602000C400200C860A00C4020500700018900003600000000600100003C02B0009000A0000020063
5x2 0 Swordfish 0A00006700000070050150000000060200370104009005160000371000801020000005708351406000400050000615007320
3x4 0 Swordfish 0C100034060043507B92010A000000070000706040C018000030000500A600005041307807B004A0C005029C007000410600051C40090520B0807400C07090030A0B0000C0600000
3x3 0 Swordfish 800700009007050860000003750001070090780030605690200300200500030536047900009320500
2x5 0 Swordfish 0007650023704600A000091070324A000001046005390007001050007009007300800600080000A008000706300000840072
3x4 0 HiddenQuad 0A00008065300000950000B000500002100020000600500007410000C00000003400000000000C00940000C000000200000053070B010C0068400020540270C0B80000AC00008000
3x3 0 Swordfish 008073509000600000000000087200005070000040930006380100009000721070200804040007006
3x3 0 HiddenTriple,NakedQuad 072300509800709003030200000000000040003040008040000031004007000790000000321600970
3x4 0 Swordfish A301400807061540B000600000809614500306000C0B004004000007050000A600520009002079004C0B09752000060000C00005000090000A00040200000280A0604000000608C0
2x5 0 HiddenQuad 00008000006000070002A0000000010000A00040000130A07800000030200020001030108003209630A01200040630007005
2x5 0 HiddenQuad 506800000A08000900000030018000A000009500000007000013050000600520030000000000573080030000502000003040
3x4 0 Swordfish 0C0B00040000010000C0020000B5080A003000300A00BC00050A0030008020087C01004007000000400010040070030000000700180000008000C00350010B030AC0700240006000
2x5 0 Swordfish 00083A759070A126000002091700000A00890107800700000090035000000000000000200498030000507200000000005800
3x3 0 Swordfish 090006017001903000856010930000508001500147093004030080600000000039000000100090608
5x2 0 HiddenQuad 900600000400500000000000000040A9207000008005200000060730100050A090600008031000200000024000000003800A
2x5 0 HiddenQuad 91082000050000A0000673400000010A0783000065091700000000010620000600041000900203001003760000300A000164
5x2 0 HiddenQuad,HiddenTriple 000003910A0070000000504682000000100A5000000000000540000000070000510000019070000000206000008700000000
2x5 0 Jellyfish 0030900008074810000A0005020000840007A001902084030501036A7004058020400000A078005300040000120012000007
3x4 0 HiddenQuad,HiddenTriple 180900304CA0C00070B8009046302C00000850008000C4300B00925000000A00070B60C00004B000875070000000004B00870060002000005074008C00200B8CA370000800000B61
3x4 0 HiddenQuad 006000000000000C406008005000090000700007B000001000000528100C0000C0000560305802000000000A700600000000907400B000000000010000308100900A000060000000
5x2 0 HiddenQuad 6A700003822000000000500080600090000208050105009070004000050070000000000000030621009000004000500A1700
3x4 0 HiddenQuad,HiddenTriple 00900C003A0200000000007450003700090000020000000004800006075005008402BC0006C105008000A20006107843032B6AC90010C000400320A00A0050000008004800000000
2x5 0 HiddenQuad 124000000003108047960060005070000000000040A0006021000000201806004000A38000000A000A000075497000009000
5x2 0 HiddenQuad A00194060040008A002008000000002050000000000800600306031028050000004006040030A70200000051643000000000
4x2 0 Swordfish 5002070000100000000046000030008000850407007001000360000570010000
2x5 0 Swordfish A010700046020000001000900040A54600A000000000900508090004670104002000000030000A0000800134202A00000930
3x4 0 HiddenQuad 9C0400000500500000000900A43005080000020C890B0A00005002000001C00800B006000003560902700001000064A807090802006AB00701000840000020008107890A000C0000
2x5 0 Swordfish 005A00213030002069A500000A08008000435A12000009030000021000702004050700000000800909A08200500A00000520
2x4 0 Swordfish 1600005000060230000306010080007070000000020400850400002060000703
3x4 0 HiddenQuad 005000A069C08B400310960A007C190000529000A600300BB00050001A3010000050000425060070000CA7300040B000001000027CB0080007010000000005000700030000604000
4x2 0 Swordfish 0070320050000000308021000002008000050021030800000830054000410032
2x5 0 Swordfish 00000005943109000000000400080100000097089070041020004000A900140005800900A0017380A0060800578000900003
2x5 0 Swordfish 0439700000206A350000034180700200020000A00080103A0400030051800010009320800001003700A02000100000080749
4x2 0 Swordfish 0204076000000842000600500145000004030610000000370600058105084000
2x5 0 Swordfish 3002000A5700A06040000045000126009800500009000000A802100078035080300090A0200005000009080000035004000A
2x5 0 HiddenQuad 00008050A09000500040532040918000740000030000A04091000109380000A0000030305200000000000000006000000000
3x4 0 HiddenQuad 05900A6004030000300000080000000000002400800000C950C01030600000000000080C00000000006000A0000200B08A0CB9060004000000C00A05000058000C9000B007A00000
3x4 0 HiddenQuad 8005000000A0790600000800015070B000602000800000000004680570030090A01B300008000000000003195006800000071000600010029B000C80C600000001709028C000043B
3x4 0 HiddenQuad C0000400069000009680140300080000605097002B0540C80035000B7A0902701390000500890000000200020050830C00C0051320000B9102000000A0007048020001000CB70000
2x4 0 NakedQuad 2017800010802000006007000405000000060000015800007800001062307854
3x4 0 HiddenQuad 30940000060A40B0000065C80001A0B0000000A0800000000A0208000B0150C600400003001009000824000000060050002A010B00900069030A0000000B04000000017000090000
2x4 0 Swordfish 8600000000070000000360000000700103100000254000000802060040000806
2x5 0 HiddenQuad 090008A0000600000080020A4001300A0000000601000000A000000005100040010300009580000010A00008950000000003
3x4 0 HiddenQuad 00000000A009B600080030010005940108A00000100900000000000ABC00940BA2000000000800000040C8370006020A0000750400000149BA08000000010600032800028000C604
3x3 0 HiddenQuad 000000400910000230000000000500200064360007102120306700003000000001900870470100023
4x2 0 Swordfish 4010000005800100712004000045020104000002020107040000000006024387
2x5 0 HiddenQuad,NakedQuad 418A700500000004630960970000A097010600500503A8971008000006910000010000000020040000000758030006000000
3x4 0 HiddenQuint,HiddenTriple 0670C0100000050000000007A00015067000C30000A28010590B2030000030000020B050000A3809000027B0000418000A0070800C400000000000800C008B00010000500C716090
3x4 0 HiddenQuad 0500000800070B00009060408400900002000908405C200000000000507010028036000000500B000900000000700500500B08043009B0C00009800000300000000000000000000B
3x4 0 HiddenQuad 70030400000000908070203081000050362000407609CA006715400302B00007000203009B0803000C00003002000006C00608000503000A0000600C10800005A0920009070B0860
3x4 0 Jellyfish 00800000301A0020BC4080900000540A2000C002A0060805706508200B0400004001500000B002006501810600300020B0000A000000A0000B000003030100A000B80010060000A7
3x4 0 HiddenQuad 7408930B0001B0C0150084000000BCA74830983000516000090004000B205000000AB103000B0000008C0021008C0045001000000C020000010005066070000003002005070000B0
3x4 0 Jellyfish,NakedQuad 000700023C000B3C0580004000C60001730000732B500600001250600A708000000000C54700000009000C0000700030C20000078000005009A04B2070000100B506094B00060007
3x4 0 HiddenQuad 74B0C00100609300600024700000010B0200C20000600391B009501370000007030000501700805006B000060400C0104800000000A000700020100000CB07000009000046A05000
2x5 0 HiddenQuad 020A760030002045000100060004A0000000100000000000501000000000000500401AA000000000500007010090A0020000
4x2 0 Swordfish 0005420604028001050710004000200586000120005000000001080003060000
3x4 0 HiddenQuad,HiddenTriple,NakedQuint B50000000080007B0004000600300102700001000200000003C0A017002029B00046001000020003C04046008009000C08072B900A34900000680B720046180000057B0000000000
4x2 0 Swordfish 0001800440030010003000001854270030764500000560010000000000100406
3x4 0 HiddenQuad 006000800100709100B0085038500010000000C000007060207000000C3000A600C000000005000406021000006005A00704800200000000100B000000000608C019C08000009A06
4x2 0 Swordfish 7000060201020300020680038000000020800100400020000040305000006400
2x4 0 Swordfish 8000630071308025520800366010024800000800060000031000006000510000
5x2 0 HiddenQuad 000042501A30005000060000001050070816200050030001000000000400040039A000800190600070040000020800000000
3x4 0 NakedQuint 009003005A0007005840000031CB0400008000000000C00B9800000067000000600800C0C00800A0760303040A0000081A208079000070400005021A008A000000000C30000000B5
5x2 0 Jellyfish 009260500070503080600000064008076000000005294000A78A000290309100A50826060709000000380760026004000905
3x3 0 HiddenQuad 200000000306809742000040000100980007000720010702613090000472103000000000000060050
"""


def load():
    out = []
    for line in RAW.split("\n"):
        if line:
            box, unique, names, digits = line.split()
            w, h = map(int, box.split("x"))
            n = w * h
            v = [int(x, 16) for x in digits]
            out.append((w, h, unique == "1", names.split(","),
                        [v[i:i + n] for i in range(0, n * n, n)]))
    return out
