// Generated by tools/gen_params.py: moduli, curves and Poseidon2 constants.
module cryptodata {
  pure val ALL_MODS: List[int] = [28948022309329048855892746252171976963363056481941647379679742748393362948097, 2013265921, 52435875175126190479447740508185965837690552500527637822603658699938581184513, 21888242871839275222246405745257275088548364400416034343698204186575808495617, 18446744069414584321, 28948022309329048855892746252171976963363056481941560715954676764349967630337, 3, 5, 17, 97, 65537, 2305843009213693951, 9223372036854775783, 18446744073709551557, 97, 18446744073709551557, 170141183460469231731687303715884105727, 340282366920938463463374607431768211297, 3138550867693340381917894711603833208051177722232017256429, 6277101735386680763835789423207666416102355444464034512659, 97, 115792089237316195423570985008687907853269984665640564039457584007908834671663, 115792089237316195423570985008687907852837564279074904382605163141518161494337, 115792089210356248762697446949407573530086143415290314195533631308867097853951, 57896044618658097711785492504343953926634992332820282019728792003956564819949, 2135987035920910082395021706169552114602704522356652769947041607822219725780640550022962086936379, 4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787, 39402006196394479212279040100143613805079739270465446667948293404245721771497210611414266254884915640806627990306499, 726838724295606890549323807888004534353641360687318060281490199180639288113397923326191050713763565560762521606266177933534601628614453, 363419362147803445274661903944002267176820680343659030140745099590319644056698961663095525356881782780381260803133088966767300814307003, 13407807929942597099574024998205846127479365820592393377723561443721764030073546976801874298166903427690031858186486050853753882811946569946433649006083527, 6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151, 4562440617622195218641171605700291324893228507248559930579192517899275167208677386505912811317371399778642309573594407310688704721375437998252661319722214188251994674360264950082874192246603471, 84162174424773976115855838126082058648805436845170781751972494449099714468753293153818664580441415219631727501698851483408310916002940861810045036330430093599283578738055113571066620126149163476340692027772501771, 1552518092300708935148979488462502555256886017116696611139052038026050952686376886330878408828646477950487730697131073206171580044114814391444287275041181139204454976020849905550265285631598444825262999193716468750892846853816057031, 28638903918474961204418783933674838490721739172170652529441449702311064005352904159345284265824628375429359509218999720074396860757073376700445026041564579620512874307979212102266801261478978776245040008231745247475930553606737583615358787106474295153, 14319451959237480602209391966837419245360869586085326264720724851155532002676452079672642132912314187714679754609499860037198430378536688350222513020782289810256437153989606051133400630739489388122520004115872623737965276803368791807679393553237145779]
  pure val ALL_WIDTH: List[int] = [4, 1, 4, 4, 1, 4, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 4, 4, 4, 4, 4, 5, 6, 6, 7, 7, 8, 9, 10, 11, 12, 13, 13]
  pure val ALL_GENS: List[int] = [5, 31, 7, 7, 7, 5]
  pure val ALL_FACTORS: List[List[int]] = [[2, 3, 1709, 24859, 1690502597179744445941507, 10427374428728808478656897599072717], [2, 3, 5], [2, 3, 11, 19, 10177, 125527, 859267, 906349, 2508409, 2529403, 52437899, 254760293], [2, 3, 13, 29, 983, 11003, 237073, 405928799, 1670836401704629, 13818364434197438864469338081], [2, 3, 5, 17, 257, 65537], [2, 3, 463, 539204044132271846773, 8999194758858563409123804352480028797519453]]
  // p, a, b, order, cofactor, generator, limbs of the two fields
  pure val ALL_CURVES: List[List[int]] = [[97, 2, 14, 101, 1, 3, 12, 1, 1], [103, 0, 5, 97, 1, 2, 42, 1, 1], [101, 1, 10, 13, 8, 17, 30, 1, 1], [61, 0, 8, 19, 4, 50, 18, 1, 1], [61, 1, 0, 13, 4, 36, 24, 1, 1], [5, 2, 1, 7, 1, 0, 1, 1, 1], [7, 0, 1, 3, 4, 0, 1, 1, 1], [127, 124, 5, 127, 1, 5, 49, 2, 1], [83, 1, 17, 31, 3, 81, 67, 4, 2], [115792089237316195423570985008687907853269984665640564039457584007908834671663, 0, 7, 115792089237316195423570985008687907852837564279074904382605163141518161494337, 1, 55066263022277343669578718895168534326250603453777594175500187360389116729240, 32670510020758816978083085130507043184471273380659243275938904335757337482424, 4, 4], [115792089210356248762697446949407573530086143415290314195533631308867097853951, 115792089210356248762697446949407573530086143415290314195533631308867097853948, 41058363725152142129326129780047268409114441015993725554835256314039467401291, 115792089210356248762697446949407573529996955224135760342422259061068512044369, 1, 48439561293906451759052585252797914202762949526041747995844080717082404635286, 36134250956749795798585127919587881956611106672985015071877198253568414405109, 4, 4], [21888242871839275222246405745257275088696311157297823662689037894645226208583, 0, 3, 21888242871839275222246405745257275088548364400416034343698204186575808495617, 1, 1, 2, 4, 4], [28948022309329048855892746252171976963363056481941560715954676764349967630337, 0, 5, 28948022309329048855892746252171976963363056481941647379679742748393362948097, 1, 28948022309329048855892746252171976963363056481941560715954676764349967630336, 2, 4, 4], [57896044618658097711785492504343953926634992332820282019728792003956564819949, 19298681539552699237261830834781317975544997444273427339909597334573241639236, 55751746669818908907645289078257140818241103727901012315294400837956729358436, 7237005577332262213973186563042994240857116359379907606001950938285454250989, 8, 19298681539552699237261830834781317975544997444273427339909597334652188435546, 43114425171068552920764898935933967039370386198203806730763910166200978582548, 4, 4], [4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787, 0, 4, 52435875175126190479447740508185965837690552500527637822603658699938581184513, 76329603384216526031706109802092473003, 3685416753713387016781088315183077757961620795782546409894578378688607592378376318836054947676345821548104185464507, 1339506544944476473020471379941921221584933875938349620426543736416511423956333506472724655353366534992391756441569, 6, 4]]
  pure val ALL_POINTS: List[List[List[int]]] = [[[3, 12], [3, 85], [4, 38], [4, 59], [6, 40], [6, 57], [10, 8], [10, 89], [11, 3], [11, 94], [13, 43], [13, 54], [14, 19], [14, 78], [15, 11], [15, 86], [18, 16], [18, 81], [19, 11], [19, 86], [20, 10], [20, 87], [22, 6], [22, 91], [25, 13], [25, 84], [26, 45], [26, 52], [28, 10], [28, 87], [30, 37], [30, 60], [31, 31], [31, 66], [34, 2], [34, 95], [35, 45], [35, 52], [36, 45], [36, 52], [39, 12], [39, 85], [41, 27], [41, 70], [45, 7], [45, 90], [46, 32], [46, 65], [47, 23], [47, 74], [48, 5], [48, 92], [49, 10], [49, 87], [50, 9], [50, 88], [55, 12], [55, 85], [56, 47], [56, 50], [59, 29], [59, 68], [60, 42], [60, 55], [63, 11], [63, 86], [64, 17], [64, 80], [65, 29], [65, 68], [68, 37], [68, 60], [69, 5], [69, 92], [70, 29], [70, 68], [72, 21], [72, 76], [75, 34], [75, 63], [77, 5], [77, 92], [78, 2], [78, 95], [82, 2], [82, 95], [84, 33], [84, 64], [85, 28], [85, 69], [87, 35], [87, 62], [88, 25], [88, 72], [92, 48], [92, 49], [95, 14], [95, 83], [96, 37], [96, 60]], [[2, 42], [2, 61], [3, 49], [3, 54], [6, 18], [6, 85], [8, 38], [8, 65], [9, 42], [9, 61], [11, 10], [11, 93], [19, 13], [19, 90], [23, 11], [23, 92], [27, 18], [27, 85], [28, 11], [28, 92], [30, 15], [30, 88], [31, 21], [31, 82], [32, 15], [32, 88], [33, 43], [33, 60], [34, 13], [34, 90], [35, 49], [35, 54], [36, 38], [36, 65], [38, 9], [38, 94], [41, 15], [41, 88], [42, 6], [42, 97], [44, 27], [44, 76], [47, 2], [47, 101], [49, 50], [49, 53], [50, 13], [50, 90], [52, 11], [52, 92], [57, 2], [57, 101], [59, 38], [59, 65], [60, 23], [60, 80], [64, 23], [64, 80], [65, 49], [65, 54], [66, 50], [66, 53], [67, 27], [67, 76], [68, 9], [68, 94], [70, 18], [70, 85], [76, 43], [76, 60], [78, 6], [78, 97], [82, 23], [82, 80], [86, 6], [86, 97], [87, 21], [87, 82], [88, 21], [88, 82], [91, 50], [91, 53], [92, 42], [92, 61], [94, 10], [94, 93], [95, 27], [95, 76], [97, 43], [97, 60], [100, 9], [100, 94], [101, 10], [101, 93], [102, 2], [102, 101]], [[2, 11], [2, 90], [4, 49], [4, 52], [6, 38], [6, 63], [8, 5], [8, 96], [12, 29], [12, 72], [16, 48], [16, 53], [17, 30], [17, 71], [19, 11], [19, 90], [21, 0], [23, 22], [23, 79], [24, 18], [24, 83], [25, 45], [25, 56], [27, 5], [27, 96], [29, 17], [29, 84], [31, 21], [31, 80], [33, 23], [33, 78], [35, 46], [35, 55], [38, 28], [38, 73], [39, 9], [39, 92], [40, 4], [40, 97], [42, 39], [42, 62], [44, 14], [44, 87], [45, 49], [45, 52], [47, 31], [47, 70], [49, 12], [49, 89], [50, 27], [50, 74], [52, 49], [52, 52], [56, 12], [56, 89], [59, 32], [59, 69], [60, 43], [60, 58], [61, 2], [61, 99], [64, 27], [64, 74], [65, 9], [65, 92], [66, 5], [66, 96], [68, 20], [68, 81], [70, 36], [70, 65], [74, 46], [74, 55], [77, 10], [77, 91], [80, 11], [80, 90], [81, 26], [81, 75], [82, 0], [86, 16], [86, 85], [87, 22], [87, 79], [88, 27], [88, 74], [89, 47], [89, 54], [90, 48], [90, 53], [92, 22], [92, 79], [93, 46], [93, 55], [94, 8], [94, 93], [96, 48], [96, 53], [97, 12], [97, 89], [98, 9], [98, 92], [99, 0]], [[1, 3], [1, 58], [2, 4], [2, 57], [6, 23], [6, 38], [7, 30], [7, 31], [9, 26], [9, 35], [11, 27], [11, 34], [13, 3], [13, 58], [17, 23], [17, 38], [18, 17], [18, 44], [21, 27], [21, 34], [22, 15], [22, 46], [23, 6], [23, 55], [24, 30], [24, 31], [26, 4], [26, 57], [27, 7], [27, 54], [28, 0], [29, 27], [29, 34], [30, 30], [30, 31], [32, 18], [32, 43], [33, 4], [33, 57], [35, 0], [36, 11], [36, 50], [38, 23], [38, 38], [40, 18], [40, 43], [41, 11], [41, 50], [42, 15], [42, 46], [44, 6], [44, 55], [45, 11], [45, 50], [46, 7], [46, 54], [47, 3], [47, 58], [49, 7], [49, 54], [50, 18], [50, 43], [51, 17], [51, 44], [53, 17], [53, 44], [55, 6], [55, 55], [56, 26], [56, 35], [57, 26], [57, 35], [58, 15], [58, 46], [59, 0]], [[0, 0], [6, 10], [6, 51], [7, 17], [7, 44], [10, 20], [10, 41], [11, 0], [13, 21], [13, 40], [14, 14], [14, 47], [16, 5], [16, 56], [19, 30], [19, 31], [22, 19], [22, 42], [24, 1], [24, 60], [25, 20], [25, 41], [26, 20], [26, 41], [28, 9], [28, 52], [33, 23], [33, 38], [35, 24], [35, 37], [36, 24], [36, 37], [37, 11], [37, 50], [39, 26], [39, 35], [42, 25], [42, 36], [45, 6], [45, 55], [47, 29], [47, 32], [48, 13], [48, 48], [50, 0], [51, 24], [51, 37], [54, 4], [54, 57], [55, 12], [55, 49]], [[0, 1], [0, 4], [1, 2], [1, 3], [3, 2], [3, 3]], [[0, 1], [0, 6], [1, 3], [1, 4], [2, 3], [2, 4], [3, 0], [4, 3], [4, 4], [5, 0], [6, 0]], [[5, 49], [5, 78], [6, 40], [6, 87], [7, 33], [7, 94], [9, 31], [9, 96], [13, 2], [13, 125], [17, 26], [17, 101], [18, 24], [18, 103], [19, 40], [19, 87], [20, 43], [20, 84], [23, 61], [23, 66], [24, 26], [24, 101], [25, 51], [25, 76], [26, 55], [26, 72], [27, 7], [27, 120], [29, 47], [29, 80], [32, 61], [32, 66], [35, 22], [35, 105], [36, 43], [36, 84], [37, 1], [37, 126], [38, 36], [38, 91], [39, 5], [39, 122], [40, 2], [40, 125], [43, 32], [43, 95], [44, 27], [44, 100], [49, 63], [49, 64], [51, 13], [51, 114], [52, 54], [52, 73], [54, 9], [54, 118], [55, 37], [55, 90], [57, 49], [57, 78], [60, 59], [60, 68], [62, 28], [62, 99], [65, 49], [65, 78], [68, 17], [68, 110], [70, 28], [70, 99], [71, 43], [71, 84], [72, 61], [72, 66], [74, 2], [74, 125], [75, 53], [75, 74], [79, 38], [79, 89], [80, 35], [80, 92], [82, 57], [82, 70], [84, 16], [84, 111], [85, 46], [85, 81], [86, 26], [86, 101], [90, 3], [90, 124], [92, 62], [92, 65], [95, 37], [95, 90], [96, 5], [96, 122], [97, 20], [97, 107], [98, 50], [98, 77], [100, 56], [100, 71], [102, 40], [102, 87], [104, 37], [104, 90], [108, 51], [108, 76], [109, 14], [109, 113], [111, 23], [111, 104], [112, 55], [112, 72], [116, 55], [116, 72], [119, 5], [119, 122], [120, 8], [120, 119], [121, 51], [121, 76], [122, 28], [122, 99]], [[0, 10], [0, 73], [2, 39], [2, 44], [5, 8], [5, 75], [10, 23], [10, 60], [11, 23], [11, 60], [13, 22], [13, 61], [14, 6], [14, 77], [15, 2], [15, 81], [20, 22], [20, 61], [21, 13], [21, 70], [22, 35], [22, 48], [24, 2], [24, 81], [25, 35], [25, 48], [26, 40], [26, 43], [29, 38], [29, 45], [33, 31], [33, 52], [35, 4], [35, 79], [36, 35], [36, 48], [37, 34], [37, 49], [38, 8], [38, 75], [39, 14], [39, 69], [40, 8], [40, 75], [42, 32], [42, 51], [44, 2], [44, 81], [46, 17], [46, 66], [49, 41], [49, 42], [50, 22], [50, 61], [52, 18], [52, 65], [54, 1], [54, 82], [56, 12], [56, 71], [57, 29], [57, 54], [59, 14], [59, 69], [60, 32], [60, 51], [62, 23], [62, 60], [63, 31], [63, 52], [64, 32], [64, 51], [68, 14], [68, 69], [69, 9], [69, 74], [70, 31], [70, 52], [72, 13], [72, 70], [73, 13], [73, 70], [74, 21], [74, 62], [75, 24], [75, 59], [77, 25], [77, 58], [80, 30], [80, 53], [81, 16], [81, 67]], [[55066263022277343669578718895168534326250603453777594175500187360389116729240, 32670510020758816978083085130507043184471273380659243275938904335757337482424], [89565891926547004231252920425935692360644145829622209833684329913297188986597, 12158399299693830322967808612713398636155367887041628176798871954788371653930], [112711660439710606056748659173929673102114977341539408544630613555209775888121, 25583027980570883691656905877401976406448868254816295069919888960541586679410], [55066263022277343669578718895168534326250603453777594175500187360389116729240, 83121579216557378445487899878180864668798711284981320763518679672151497189239], [86918276961810349294276103416548851884759982251107, 28597260016173315074988046521176122746119865902901063272803125467328307387891], [23129491278950567785970148376500648032717531886785241126168611397589814798013, 39307099057880941662675806615359097347682728603444928455093651353540932186784], [48855639271038213175413059690430000419994498271391273103383037610183921724840, 32531562350509420032897840568897966994666772691963992668316727298261372788501], [1, 29896722852569046015560700294576055776214335159245303116488692907525646231534], [2, 69211104694897500952317515077652022726490027694212560352756646854116994689233], [3, 94471189679404635060807731153122836805497974241028285133722790318709222555876], [4, 40508090799132825824753983223610497876805216745196355809233758402754120847507], [6, 19112057249303445409876026535760519114630369653212530612662492210011362204224], [115792089237316195423570985008687907853269984665640564039457584007908834671660, 6603225675942137755722016048183769717410321709583529039474051610042430502525], [115792089237316195423570985008687907853269984665640564039457584007908834671659, 59494462493979449647570233702496999513658646306271329894531992659739671393069], [115792089237316195423570985008687907853269984665640564039457584007908834671653, 32675455276886538377135961527970747392999635122131544003589039477106874644692]], [[48439561293906451759052585252797914202762949526041747995844080717082404635286, 36134250956749795798585127919587881956611106672985015071877198253568414405109], [56515219790691171413109057904011688695424810155802929973526481321309856242040, 3377031843712258259223711451491452598088675519751548567112458094635497583569], [42877656971275811310262564894490210024759287182177196162425349131675946712428, 61154801112014214504178281461992570017247172004704277041681093927569603776562], [48439561293906451759052585252797914202762949526041747995844080717082404635286, 79657838253606452964112319029819691573475036742305299123656433055298683448842], [19439240795854216504166878352080480852025048076250165894565412345120149900726, 51606592786353391533604413608440083413253006871618183499369204189696009138844], [7081762767697287976009771493310263771290289599581147299482766892475312560995, 86823381773038968119624426030239743822549553315161612703449942820586000887527], [113366418782931791687929363640721278913358079911908287846391524348708227428911, 104045284882173319607557333652643991172700922337253326649977266084140813487917], [0, 46263761741508638697010950048709651021688891777877937875096931459006746039284], [5, 31468013646237722594854082025316614106172411895747863909393730389177298123724], [6, 24739918328848417526480033809572464882617473122143770809273908485596236620747], [8, 82784132184742902406611976374283817475915538652053173371854007222633983132083], [9, 64265364456294082747112527522981594904960689488638802860996194286474266915479], [115792089210356248762697446949407573530086143415290314195533631308867097853948, 11508551065151498768481026661199445482476508121209842448718573150489103679777], [115792089210356248762697446949407573530086143415290314195533631308867097853947, 100684751243490728436297190273242547886038717873485320031861314189451628310455], [115792089210356248762697446949407573530086143415290314195533631308867097853946, 70061224858101283297852690749343734296432521594595705900012831627423559875929]], [[1, 2], [1368015179489954701390400359078579693043519447331113978918064868415326638035, 9918110051302171585080402603319702774565515993150576347155970296011118125764], [3353031288059533942658390886683067124040920775575537747144343083137631628272, 19321533766552368860946552437480515441416830039777911637913418824951667761761], [1, 21888242871839275222246405745257275088696311157297823662689037894645226208581], [10296210423881459776936787717049993391325552021605413991699412493845789633013, 5355709597874802838595238292502764122767652289540488992110592095073644011920], [1964368079588584797404287339943641289412931088411205631821756856691635808552, 10076525878918732157052705251240448867588897755614546837726704306562015079100], [21350734617280908974750963642109759359488197183178952834071142710453775760916, 1684727065004027474724423626251259238150803677605211327947201985927029797222], [1, 2], [2, 16059845205665218889595687631975406613746683471807856151558479858750240882195], [3, 15623653055687506787251894162198937787223604445717050005178866010732071291759], [5, 12018145221906193280709297956955491909525805305027991674545581949749903546958], [6, 5993221647634779613604342011271358749981133824377982225851189538008001477910], [21888242871839275222246405745257275088696311157297823662689037894645226208582, 17918450306617730576773466553562392805212959031101866706334976164702657599807], [21888242871839275222246405745257275088696311157297823662689037894645226208581, 19788655946941962845302089347811860683992145805622743962348878995049233921303], [21888242871839275222246405745257275088696311157297823662689037894645226208580, 3024298314766691669433153072291716178764425889478070494193068318166440743766]], [[28948022309329048855892746252171976963363056481941560715954676764349967630336, 2], [12664759760331458874453076485325239921471337210849432813230171084403110838275, 19449452489080454700052938888178047022259553573804486106032048451047634501628], [4027241023027617754036171531542546502751647131375064771810253584944963179107, 21762326383673887073830845720227757791980770399450032709429395080608314263493], [28948022309329048855892746252171976963363056481941560715954676764349967630336, 28948022309329048855892746252171976963363056481941560715954676764349967630335], [5525687385675072235156371189282057080949058604556804517694387419161715322103, 10703306277162839747393519563122013086617762958676865422805750397650767495707], [8557066392388506727056664234166023020399486245818459985461692666971062613526, 515471229468954934865525912045187029798764575628343562242549757732084533896], [27144724614997245888290600874930503178972455989040746208710216870061456520133, 4311386171779846548144579620316520204888519196701642034719984703344208545184], [1, 16529367526445723262478303825122581175399563069290091271396079358777790485830], [3, 23540362058996159416894031703615394151817131649678052985489943424524850154353], [4, 28295886123971777911926723257168207563159965828655659118586524894739550085951], [5, 23555590858721640272502235743650885031419641451477557580443588761896910754605], [6, 26218307768057255832989195111727036755324662844691470840350322145427232202153], [28948022309329048855892746252171976963363056481941560715954676764349967630336, 28948022309329048855892746252171976963363056481941560715954676764349967630335], [28948022309329048855892746252171976963363056481941560715954676764349967630335, 17006931536212783554987228065028097629383328157457783420645920607630467569011], [28948022309329048855892746252171976963363056481941560715954676764349967630333, 1156460451349343476602100925132614002897595274332262840485868411387987065320]], [[19298681539552699237261830834781317975544997444273427339909597334652188435546, 43114425171068552920764898935933967039370386198203806730763910166200978582548], [34145958685188182721225203372338409610255982577099208428796738225249784787788, 48981431527428949880507557032295310859754924433568441600873610210018059225738], [31996542787837084749389369998208417873290338362623257813787100531446184304739, 39113539887452079713994524130201898724087778094240617142109147539155741236674], [19298681539552699237261830834781317975544997444273427339909597334652188435546, 14781619447589544791020593568409986887264606134616475288964881837755586237401], [1794112490078900816685779679642090664563452436855622883386818746576181550496, 21844257874231564415008184387342343645172859924353617908436380271631231531945], [22490306705308629701444740058673790285996382785461503968439136055643284548717, 13724945306283250624780113352483006455160439975266987502676206329776622902003], [42126623965451217659066121259978214194036778983085945434313492227554269770742, 15163785178344062682171583522814870114614656448547294517211407538464207422130], [0, 30992548688866185731160829815745906339026709887328719897407902247730032325131], [1, 18909347336615151728670064226692766338825600391524661473633862702332996581084], [3, 1299108366751493491072583844439050006367275185315247662916144349568276347920], [6, 38390711505635072111173608874540872390833441392104754155952165321772634249196], [7, 19172526001133118116405784977723800924384594365247398516339237030405822788330], [57896044618658097711785492504343953926634992332820282019728792003956564819947, 24245859352437221244083199054812671343182851444114301325834291023004500481228], [57896044618658097711785492504343953926634992332820282019728792003956564819946, 44933843865748593041499883407845815255793916769003142564230500354972623328935], [57896044618658097711785492504343953926634992332820282019728792003956564819945, 41588299688148679640332286857840198041731862617417228160651767100517981009509], [19624287790469256669057814461137428606839005560001276145469620721820115669041, 25869741026945134960544184956460972567356779614910045322022475500191642319642], [784994156384216107199399111990385161439916830893843497063691184659069321411, 10506421237558716435988711236408671798265365380393424752549290025458740468278], [19298681539552699237261830834781317975544997444273427339909597334652188435538, 9094040566125962849133224048217411091405536248825867518642941381412595940312], [19298681539552699237261830834781317975544997444273427339909597334652188435537, 0], [19624287790469256669057814461137428606839005560001276145469620721820115669041, 25869741026945134960544184956460972567356779614910045322022475500191642319642], [19298681539552699237261830834781317975544997444273427339909597334652188435538, 9094040566125962849133224048217411091405536248825867518642941381412595940312], [19624287790469256669057814461137428606839005560001276145469620721820115669041, 32026303591712962751241307547882981359278212717910236697706316503764922500307], [19298681539552699237261830834781317975544997444273427339909597334652188435538, 9094040566125962849133224048217411091405536248825867518642941381412595940312], [19298681539552699237261830834781317975544997444273427339909597334652188435538, 9094040566125962849133224048217411091405536248825867518642941381412595940312], [19298681539552699237261830834781317975544997444273427339909597334652188435537, 0], [19298681539552699237261830834781317975544997444273427339909597334652188435537, 0], [17851280424086246794467193522172719127379122635952920289416377534553274339676, 57153571793960025708871022728376263870324479497748395426614960592915127380140]], [[3685416753713387016781088315183077757961620795782546409894578378688607592378376318836054947676345821548104185464507, 1339506544944476473020471379941921221584933875938349620426543736416511423956333506472724655353366534992391756441569], [838589206289216005799424730305866328161735431124665289961769162861615689790485775997575391185127590486775437397838, 3450209970729243429733164009999191867485184320918914219895632678707687208996709678363578245114137957452475385814312], [1527649530533633684281386512094328299672026648504329745640827351945739272160755686119065091946435084697047221031460, 487897572011753812113448064805964756454529228648704488481988876974355015977479905373670519228592356747638779818193], [3685416753713387016781088315183077757961620795782546409894578378688607592378376318836054947676345821548104185464507, 2662903010277190920397318445793982934971948944000658264905514399707520226534504357969962973775649129045502516118218], [1146196227999230198341156848577321183055403607367280570105118864310584286373547773050810672701743301671389563724541, 1363009767037662074001817955931655526459016255045846103000438166986391159850744462405910593658466638679875844217735], [197408815357513944840451471789328466703038526463331362443507319390261983413537707469836454160686797264756657362476, 70956026550579010391137096475884661651950609166861618197286298386290774163180314524211263807215728221306457572142], [2076084320192554814590825828262208674941602101232440024862622938984769819701707820819982530596496920498214884022384, 2739350981311531655193438281377163537640739479809126036603892251539425086989625582131631177064604874719149975343385], [0, 4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559785], [4, 1630892974828014537729259858097113969650871260980656934049590190201941782487224876496582135785777461178964897591404], [5, 2037214210573583170464691611659423517269065329685174421529737234252314188159418646987978679703439991468731867518477], [6, 780047469010895854325384021336774242684793576489198688173714042437169064844633209980357747571105827349280896006969], [8, 3930390689296168445906196428152961278575634980507666927604641803743434924662838434909417898851151345138324810082620], [4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559784, 1445238620174730376695666642057771941346970416888668529992287870312058246844524108040535379023323391097837396974497], [4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559779, 3173552995976273479675662383514253975935239837731351274633515820191869798083162664626974000872019284275352282525263], [4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559776, 1853688861321414393859579893899528587845827680612028413945384191765259068063531665771263583649791752441252411054200], [0, 4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559785], [1970372112336885166433607949963048934508609520935373756867831812153172608257879999576076026759575878642865347265306, 3300178667921317404704701025837691038869512256313772241270747517791413006239732807268325427907282928813972502563732], [226547767428106672486538776731290489229177586501956057933602513869172616253133541427605645327223244658792561968858, 1626172198802816216674343553269005183824259395272345813490038814955432145214903909155820297930446877676635169690983], [775667637291695577846455912618749071454084496626334786737588092417909863768046141964263550262564634342268771072733, 2677728042647712601472455302769608159860052793605873198522160669813439960068531263157209579321612544764619203513938], [902902280655032857131669058664430172983252903387715268195800168905658087802464032300574821706115666289632210303771, 3054086187934648315739424820557177927494082740019489057828775246512609399084889567060464686080525253153266978124882], [728229618530738477518631184787444413920484000085580168488010906115762760638815392214368526714058859336795513942094, 2775198062278535238713175799489253718834011285097211687096975165292087798778693384670341155014450070762662482700551], [1844893668033849869370914960021714829517440854021597643530220490126979374094940914999109585875258537034547673934979, 2115258911565539748547673755435262175948013263499112560508016739529116919671333015039308288192138842469816347919192], [2351130554240342729873657292306487206569552977324115892423530863459252339157582789122863248248776310854991583060864, 2214659980580504624457549393650836764928326431919750745913185915002561873384060416349752704931599271229005315662630], [0, 2], [3106816610100526641986153777047599023155042394185004926738564252287525359828265120722917568865471533331719592807052, 3209215075457021105231389037620836791163600719205627248938774943954860926688353609484280987870192698042275137663397], [2442050099547690740842256744711843209418676506570894633061240155130533226674121084101429393705976398863535239699306, 3671369012380407134314420082189862105908888392837813703254352261749421913136150188691374147290985620752012715900448]]]
  // p, t, power, capacity, full rounds, partial rounds
  pure val ALL_SPONGES: List[List[int]] = [[21888242871839275222246405745257275088548364400416034343698204186575808495617, 3, 5, 1, 8, 56], [52435875175126190479447740508185965837690552500527637822603658699938581184513, 2, 5, 1, 8, 56], [52435875175126190479447740508185965837690552500527637822603658699938581184513, 3, 5, 1, 8, 56], [52435875175126190479447740508185965837690552500527637822603658699938581184513, 4, 5, 1, 8, 56], [18446744069414584321, 12, 7, 4, 8, 22], [2013265921, 24, 7, 4, 8, 21], [28948022309329048855892746252171976963363056481941560715954676764349967630337, 3, 5, 1, 8, 56], [28948022309329048855892746252171976963363056481941647379679742748393362948097, 3, 5, 1, 8, 56], [97, 2, 5, 1, 2, 1], [97, 3, 5, 1, 4, 3], [2305843009213693951, 3, 7, 2, 4, 2], [17, 4, 3, 1, 2, 2], [18446744073709551557, 4, 5, 3, 4, 3], [97, 8, 5, 4, 2, 2], [65537, 12, 3, 1, 2, 3], [2013265921, 16, 7, 8, 4, 4], [97, 20, 5, 5, 2, 3], [170141183460469231731687303715884105727, 24, 5, 8, 2, 1], [97, 2, 5, 0, 2, 1], [340282366920938463463374607431768211297, 8, 3, 7, 2, 2]]
  pure val DIAG0: List[int] = [1, 1, 2]
  pure val RC0: List[List[int]] = [[13128406282895484157369354038809433636203389051939936481821261911791933663254, 18931653859213243425446645781588512487838213266321401679594943842133071369744, 14100663835952519432830313936592734340076294692040144715814219945570907513297], [4829113795940962171577509772302063766582957624337039572002553144762883322341, 15524196826242151316602020382811195434692947787822797536837043495207890599720, 11824742889827005569732308046012743315382715056680481843559537371456931944245], [15824369292130948538570881538463827283727388637222356799784648390667783881850, 7395652367440825515524159918310823124942438011035473842936180620057265532493, 1241351203963627868835881804826107927839874261162687401459390240620885410254], [6688265362431458560657026053775250595854204120757399493099812773970419156132, 18628865421786169197184064906533816626840829027307965436801990532221681661310, 17770079997659052348824924629777474963416629061770380464722096481670103655806], [11811415718957691261673974625780511541635150909919309658375768251762566747317, 0, 0], [17491388639298611159333770975992024026420968324544834879936543171716736973879, 0, 0], [5647537972700463414111873015737673282707440513292923385601908870282442800104, 0, 0], [13098696909140066209556423100763036393001603197583133354863092304798723388565, 0, 0], [6951180250619279643770888203380891623788978362131976553140006882493632020745, 0, 0], [11250251081997661635793843737498879309304455145146915350538637298238893102958, 0, 0], [2246982048814095620312232487641427155108104073024754628893054837638848127964, 0, 0], [18897180842973857564376958241871700087418903006311506731527228148081597475814, 0, 0], [11557404599711559103972421944754928847181400366333080241838467983028485750549, 0, 0], [17156358787639157774388183034849932704703797218604790661321342987075785318260, 0, 0], [8846001957151556825394442611430138293780354129800063716225175548340091032449, 0, 0], [21883449834630454155761926448978525628607016008113566399646971468161186616967, 0, 0], [11782201180140779170005707786217005381305915516114251118577530420880166417952, 0, 0], [19574374768428302416384468550351257389078501920039012797497943057156188490399, 0, 0], [8515987927591912252146893631936027853249294776314628553087138119917968203620, 0, 0], [17278996890957540943430295799612663512184925495827057764219426280563743078943, 0, 0], [4560144125266860756441160513270281593457202308593722614013851111005532208589, 0, 0], [18507459160700813704135500972073304101922968342745790738233104310822653821881, 0, 0], [12853272419783978245995917302225694649366687506910892647236063701566570840428, 0, 0], [14374895923592519298500369713759001634990764548024903321294831249025876110484, 0, 0], [1754533789272381217541450481312878927560073411620344950409407505576538004136, 0, 0], [20448232810715691360468548645921483318770769828465347895613479253435247065293, 0, 0], [4203277692183102377396835282861288449527228200284576966986741905195109677387, 0, 0], [11506339386261725202512749094297334054772084639665212079028551409689271965431, 0, 0], [4408799661846477128378547528471700197737434561274043409442231147309460168718, 0, 0], [10862521404448958117187164110262290189825635328197001646848012017699995213390, 0, 0], [7012061838863338817532836723152059636816924388921632356281537445328382279260, 0, 0], [8337544039076735620694225144163354013921209405711398618659178986151546625400, 0, 0], [16173744372216956516796750206695252671549928142051779144629150462255079400849, 0, 0], [19072902632067672883974143637757649536845413107085656789672471396027868707732, 0, 0], [3487852254355424154670010750480228751987308757772575371606146474985412561707, 0, 0], [17727517395793273304860106667199855253218123164763798377815886217088561516989, 0, 0], [13280131383170382695839570176732265848909891244754629477752800360224963964534, 0, 0], [21504421972374418324171209120165696620934505501591484695447432472073975792776, 0, 0], [13753604424945682926871108642602624411461374991709441590662260371815673344981, 0, 0], [8053178768600673579416591772204841415225213226540397062676127402210384682315, 0, 0], [15101558583452488762759591936595783545455044970328380152280373697190919758012, 0, 0], [6286700389345423344101403023711121482167900236544298155098199100234816571786, 0, 0], [19368755554193272721035317233504719593365546521121074341670771231332472422552, 0, 0], [13306281365497267243785678269212920842854030794417306689235276460198094483575, 0, 0], [10121764749051640353641114693266514664967620368543293902008953934189850195966, 0, 0], [179619165022370308972665071682395477322215797039585945216341070107573537790, 0, 0], [14053393851645634065914179337120715807963438235922115988819572738574714471437, 0, 0], [17345906218970918797922168310670548252023720338285437740234091480846393436478, 0, 0], [10383068492552043678323859571562933490503408853170063884414176092784243607055, 0, 0], [12096041499044892166554391619429604246288825927654072010011878199637889490527, 0, 0], [6449742640166027959651492823149770763572943879017164812917305794918053034585, 0, 0], [6551805454148805882554763665748573416514894105513920161214733482541847062214, 0, 0], [3651410956659878392469489270906333016569562868954890104332567650040497030813, 0, 0], [15219053914464753937310253926447830297339787956721755285255510737973021838676, 0, 0], [881679665678132972106931291023348167890022611850562267871389203532691753422, 0, 0], [5006067481688857073852527145736822635357747460125905556158034280392250104971, 0, 0], [12765332320844032254009314500332101047115754896003948733635815046365410860591, 0, 0], [12908190215073542091623737558383307555705501651914623082354191483197810853182, 0, 0], [1446042792715825508366007519346636771782990303010685652946852324744810237839, 0, 0], [17414863822034645298427260856470503848317996477890518738401812766215195632841, 0, 0], [12123026335854515584932892161148559902027319284544852339906677442670161590992, 11747143856113197599032240626240804787576886917202313931914972592787570603429, 12689083329367969619896630238881490862330991685178863399139986099061967775891], [9363616378570856727297258914956380343356030981401312041884116403700849212733, 13238291046435061349401827110993774315432323243867917623501520885175217584478, 13857006478672530359037215101120381968370236111775805219419707798416454682620], [2022752961549084842139747691238383165524359342011064407942599644003308437489, 11377043765620686524844863869245961003946340433252666374730228559486855986878, 9107028336454933966239128359918274121166034584181733998485105905495346200934], [900063247840342897532382686223939136593244983486268682637380837456165317070, 11261302954518146885624063833699323298803404236535464228351677636819579513431, 7126990412157463341897179572979760225771626877677162088926546182321369054630]]
  pure val DIAG1: List[int] = [1, 2]
  pure val RC1: List[List[int]] = [[44510337639712444877093863969199054965277800588455612249278638908194748645831, 21803715039317278198490310228838761820084178670568647145430631061363562182159], [7624865858307587153533893753671854337113466346291121078558552645350285711947, 40816250157678830542785454550323790288400761867270997552332922267166370848099], [26700489303136047462599262740180012654857443933973506452655094204874268181798, 29300041198680547975810813644545348954050411371551740473502764872245855641482], [26494260871076350781917504826961109818301921647993891506179327799406892257760, 51471943067203395853539598076816386277188697473371359746626216561944728278869], [48874150250826827063647140518997592549563417409147246235831213929889330889464, 0], [4957296567799842922524759318027693610815701909959689401077625970883603151110, 0], [49787130886622940646628207982474849305464467960406760686521606845929813913147, 0], [38626507234346048667761615866199783635070759234617387640403950557591257611930, 0], [43672937506493322470130890010227422460105683953151094688032165492686807529714, 0], [10282858088808039236495153687326481750629167926398528104702176163827531439774, 0], [5929373583590601619353793840106929273025491048347772550388315300478156302480, 0], [40523767159781096993564794726793344971416282562716017669035314514589021856544, 0], [35087653160263082011551011896785452178273871331090954735353760094574180797326, 0], [44066134544197993553720315073514236799698542066082224906667320314729128689851, 0], [46811190561503483095087189032015959148465356044838419985597715002375968521789, 0], [35502138198479058392251639631217384470706251578088034693745546686222031522574, 0], [3011951966042824356793101436014075881633742606023423824609791334873649401619, 0], [36441783079799715976603149530703751751672873737838939240893549516900746063885, 0], [5949000965032854376013985161729805610095473216976505768565157587449663833146, 0], [39334547265154726054631299624100840161191136653442409769156478840344483284117, 0], [44407194440944549422962884120864337491414458688079798116475114348830479824132, 0], [17726376508115223453307205134714318843193912409715438117420622264717671262663, 0], [756868613004458973360577644537468651009832005811964377612175868388980341238, 0], [3421893741771938128946389260799798658478598753415463644298734220953059738355, 0], [13293243933107737951928282334791569607692876620282367672054893180625816893632, 0], [11906453198605884256628058547608350794281153234160543833653104246224561572116, 0], [41007993900563419378450318427807675773574107233531791780559911428122060668864, 0], [48053112103639043655338341411293547635466618118313162578053483741000954697443, 0], [32234194819559922425974652761643838211443296225838831687358769666643041225472, 0], [48939529425812404248175324082406620877605698116805848434311747711965735603142, 0], [23172302197508009638107441698229967178757578829167657081073715837516157038684, 0], [26828245904250884987904133111377098838723772557669646848196202419087853870872, 0], [36025164071480125389137319620343252251920437049927443652919962965645042660420, 0], [42147865145919705097445974287709456827305052297675196211654971979806749888911, 0], [20585606416170880487041307637777839232517038894653375498347934603702403525799, 0], [1047663270527934381838445994762652910090839507177449076034186708210288801902, 0], [49864990265274912108645272682223261996354786042911445790248422528668444967688, 0], [20274910123179255493744356413243132767746258718293295072669857132542604950741, 0], [39934722872842035804029775488645871956511886709858512717725127998627130523912, 0], [33295937568441654166303959882114891655347924209941192993151592385097862772126, 0], [39198754144978337534654702520273605486297255614756323128663775493042981926264, 0], [48114214484211668830722398263059235215883885642960292320018016482221617479308, 0], [20857205525756474383857323509517945359548153106777905032259140536596758842151, 0], [20481512031474492331394869498229505122694442073123511672315331466779200648987, 0], [5512348932066875222255592673449822544023582557729178288775446420395599163714, 0], [14748707870289380337081091822758247948394420380976550635416667891847265434773, 0], [20722592968207591585193709289557966995643707360519106502308701025990663556112, 0], [30345071158541998337681526950804671230825251993252779307899796752848528236301, 0], [37998633152333475045376762610205951441947316428701472139959038991258723083573, 0], [25187075483245106412039082847435291293567789993240499080077480139071082713811, 0], [19421269742609173994970218921590288196829015512476170234735579602917648585528, 0], [44645626649350902490681022627010246390651823839290377812847048196342039743308, 0], [38015410591674700109176981164929629504879929166582206795827935147005325179107, 0], [15907673084411204300870039215095416489657280867726923876605554605918361454411, 0], [4839910768263945909615643698821897421248623201436406727882801614226282796736, 0], [11993166323725114372511567048380837525145267539902083755578961856890086640616, 0], [13920948384274828210917386586592591296235909076917892178237942711445546791673, 0], [890670937435713979056767019654860866935017937714294844928044822115961948695, 0], [17228860181078068965008756660486864527552317469394243328944319614877053158985, 0], [10077644153064320976006893555780056518106113458749153233744229760482343163199, 0], [49940012233787551970719440300197866554675665187348390484098206972627022147562, 46156268877611784805956766593634373731938578230585206172333523828368963221701], [22953533088186447995354081903847946065608888217162100116127853233026059928601, 52274456635025394989373456728632213614198023598074828050923870917877714774032], [10763107301772445560209819564880953581415947909035345171575074311681161298071, 18925434003927090811791086956853651992753402455627802833236246367412669605539], [44640541969065703218376218137336488126193962189090743983027473909004591005110, 6325804276918590364991192431609508508777152352802958405080031341778877821773]]
  pure val DIAG2: List[int] = [1, 1, 2]
  pure val RC2: List[List[int]] = [[50207570499218320245539736680169582180207201335688461025883902752909290481781, 24448666467656506447555018649749346340705294023832615387641453784702583464707, 34092944507611308604157957266676007619644244199372265837364557849561670729974], [46954129210702959446093971191783182601726081775951103310666314834569091037713, 38612156878839717097806285947575477749087608521505464809942918879152074545066, 19752610610343814834081989345964253902282700341539483876504601969121084774539], [46567545048462867923299713424766325689670511126407629551256255807498976196546, 9520793415506326549109545537894287560752519598132096386048093015534488804808, 22814234098357034097599682726494820560934925862581927123816510593532324971186], [3277621627834606517208177071759088097855048183641615082769528872043050020787, 29230456498980145088774069819561206654397510279226264474986155631775387918911, 19087113294497892618475669593723876605785307026981218038380435259594863105240], [39932371919358015185769877859035474336011770016475087638554815294278664040916, 0, 0], [17645770319151120318035258350885823104235488352935695302274836429012504407725, 0, 0], [17990728141399065004015538797609951295983853332644474801890158217822768128628, 0, 0], [12607949331462269429981198199999740921418125994747028428126661151190418292729, 0, 0], [33067617079394435172767143524489677593390850035349407507374659268468278200906, 0, 0], [10025233623562179533044093426455032352895184661359005809314430689113735312874, 0, 0], [20398677688057466110325934731430812468657996794663167456321709689030080949228, 0, 0], [32085671199853825909918260218834827339732598508827083525700252644622592932757, 0, 0], [36451986593067827349794003109666944974266236856145879921902940325507228739480, 0, 0], [51835224419566813714481533481210630888564327175625175437244377303858990291964, 0, 0], [1944662263588038198375346521900053780907777056656211622999059135594196413076, 0, 0], [12995068374816903282074967132431954020410301768622808407703775963080983755183, 0, 0], [13278128079226679628648689279705910775020794457648431336050464485837924986341, 0, 0], [39207195481789228835625472428521288347432218258431761869689775532020546099642, 0, 0], [21081768833381902942114733002158882075348844281359283013642620389621494952015, 0, 0], [20751788049060260683191405008569080723662271828149227137187075968560831545739, 0, 0], [20820291785607398388900832350860967875629907105847554413318238165275470374689, 0, 0], [6971878585215744613467847324629115462668098071102846520957717612260531709386, 0, 0], [42421164250058173810994728364144776180689735894673627964404703973460802099146, 0, 0], [32890116643831560295329417521056875595733120141391587236744387068135440602102, 0, 0], [42670005614507618780436482775021159957307712089310941922452133588875084445464, 0, 0], [21120353743307986506720883740380468652053382764895882204680310593048134053982, 0, 0], [7853308243263055176258751393326645428041138029306706980470113526802326214700, 0, 0], [17545076036297840030021082424260289805456380863517895917265467158332801090765, 0, 0], [29526223376722400691172584788126610514669516909826971155598997488361793726636, 0, 0], [48421712782536172546302502401679048379568171245541707202282458591545347755349, 0, 0], [10740853637774754893036062076749871837371049036966225040269105665447180116170, 0, 0], [34042041521558704677804677569712674569738576001717295340556848855085089618161, 0, 0], [24290796201833228559129233924595614281891670608675107544294264860003803501509, 0, 0], [26722678647461522072509896114724736555938247563993442152746954157222882824350, 0, 0], [20252491387019425681551488261397157776479297799360691728406809731508542196845, 0, 0], [50322025264206689090790987370440439179141270613911973034521438238687587958097, 0, 0], [17070806525931584028449131949070191143344166668070820337429561524629464200550, 0, 0], [25856554324149146992239414502939942208580094928192925471532421030223074525051, 0, 0], [17714998974036855356530338446243137421735047395517260588250413348153258772076, 0, 0], [44833315250334176776685835079382312848180252180173884969157994737319426976437, 0, 0], [35603718839327251012037553292043899153393807438387129505923567878785822738162, 0, 0], [20515196301761603016197694845695272699608637099106794944737311528118558777570, 0, 0], [10100400556460905874275078234698187530913105549037797180493988678937053918124, 0, 0], [29943022708270799252522211109308629054849337552699067311814388215768905671554, 0, 0], [33400164627534996188947689774080657908147988421361870074239537729877153299092, 0, 0], [45574161704098228712016716221086232277248798839906622903502141601878895917316, 0, 0], [40623265267364613450776577487319920007897396936924051398790906883872334022964, 0, 0], [37929176440858430683261948300797278761072096845318183419284347376614069989808, 0, 0], [12242010394227909997626655999345208835040087302065045201635069094289920778463, 0, 0], [38947272924417356803622776795797899233194116520680026665045628837194239730633, 0, 0], [6838505804652359252670794375725267665530548946030641535297433541475260948424, 0, 0], [21345718918993308853491352363460625447157796362108157527364130872100101143328, 0, 0], [26397988737034501095129796920971941795766209722106383463197090306632188634870, 0, 0], [47092791129593573928369881528796435131623991381197863072979392492232678100884, 0, 0], [36850972241154890671857874025605504779963735054128436776319531005864791472123, 0, 0], [27893799443241349360688137159923920340185830261519093384488134540544971987330, 0, 0], [34031071010517479317003393843135868322188010660871691856659878788331169912272, 0, 0], [3102550735908358465878301372253437950829524988677083749179431098369388780259, 0, 0], [2963742902601529003553690631564645593518709846059084207036841793643477514707, 0, 0], [34538583661636382515652368664945657625216404085453317149263146639486246251503, 0, 0], [49179786922858759927440465310900376749726765337268308911471491527044937447403, 31668552784983283483593666924944066737680315058069542500069213700768949573692, 47303630019147536941220901582952982856517915740884282232588733470564849742080], [41561182787858915334837446901194440640033856888621022207410120224293681204923, 40208795410444394963490428737133513683110766973508056822474493355065333491217, 24620569969402072776192280888011017497854992833864712509770555543278833718751], [31418811028946653724823259636547682581071379929451162101915628592655152015310, 25964807298150242099204032696543021731332498792173212422070959505270506288817, 31766013031271106581980804902159064978010553325475976472264348555438361464655], [15107529391758643095716794813038523751713309080738989300826699946985294497278, 26149402682269665088314773514719203730233986608723938665192802061570851149320, 35053126320072620250684851851709987160095640397875384355477447570643983599564]]
  pure val DIAG3: List[int] = [3318655301660913042182619814759206048255383170476851554953749170663204936509, 44109141949870474831175246250426841318460684547410744873114578168622501784228, 29659240597933972492294679304149537656111319867730125083673280425768884331730, 22737209252563391582737936950219322780303060945177735953720593600577551054727]
  pure val RC3: List[List[int]] = [[11865901593870436687704696210307853465124332568266803587887584059192277437537, 37413344849675497106163505103761203874617077416461933389729149896951619083615, 32493856687297537788073517556470839888070933486712636845483468275561142904504, 8106572321306448561272383558012749963748358844705299406391447161298410877832], [11707331945334514286120137391947350087632085623772869951863164361695922976568, 50176353669915139758684707864014381736527453065793678083699453978150986704353, 7614231165138437703715796351400512419034157550777684039873810826440625723695, 17108745804308684637964438487237723214541645477949369557189249702220750722331], [28482709556494724328894800736802198653800073555798724636385135549439085356742, 22084621272529558534346674593668266856649195963035162420257478396107381285157, 11065046937453971018193111360820446155970823623967390073553725256595768408791, 20163386569362559253936962862374791389308839238220230985809310822791529262025], [3941572053547598429065422950522133819874343789089916995553450661687375302109, 26478286544099137612981910043301624023925078357447813396543283503388535703096, 20695873604353009531429015276900191600064214090812802713214397507580078182919, 13125722302273298866746961565666978849814465870768123336569424431819752980076], [36198064501926046106576802008779486932990788729159233810880339338049275796987, 0, 0, 0], [44304460846758155168737768840994398685118878625607355725968797162919830864102, 0, 0, 0], [33427295080737122973704388239917504856466726697805464799279074730831006493899, 0, 0, 0], [33676819385378678616140345579679379172852136878360832374035200947147349341877, 0, 0, 0], [44698579309865383047943970651850256651158236406641741596599260270592257060333, 0, 0, 0], [9785548396072733556484927856146778907814788851086349315764873426432645263872, 0, 0, 0], [13443943788901083053739342733252043423900693132812974385986650498262359453435, 0, 0, 0], [50643729733611061821734405325096960434556494526582143101458996741611494836986, 0, 0, 0], [9762302758250004682914036756566790454206292929079802149918241419991743778078, 0, 0, 0], [19475373737975172049750799347581927313285945820087657933615778552974211829387, 0, 0, 0], [26326676308398320579169539788392437654921007121904386041440053251920191437301, 0, 0, 0], [33434337088018971767011967694326287068660679954245122268447231545106574191053, 0, 0, 0], [21854837019991553667332010956652219921642250105983660108852707854862240766704, 0, 0, 0], [1855873836256370364169888814967543928768577071445146807885001909257610924575, 0, 0, 0], [48105724357874736702308498318239595022868478610964925776544998873327877770469, 0, 0, 0], [6893757226114776013992120610353413647048965744053221939747330482283347049271, 0, 0, 0], [49492933790401867565879330847407697876101917412920943837692305231776568086150, 0, 0, 0], [43522959518323197786977932091172575965428037444858136419745890338308804820810, 0, 0, 0], [39369220628770987071776708725487093142438968678975788148890686830600891659237, 0, 0, 0], [24332002500271167754445178113059124234684848763578719088484322891936508359054, 0, 0, 0], [32863475623207582419161401899951874256189430526558709698459253237664899579477, 0, 0, 0], [8315390532973093090228198037973187268458339671135900692256692995983001224287, 0, 0, 0], [41596164941281344945126840056611498785955123869980989807278169650894369778621, 0, 0, 0], [41140021013127548285923961611241892352480288807646515822914427245468443615449, 0, 0, 0], [42624333566444295089232230699974262280460377983015559040916764999567317327294, 0, 0, 0], [29425841969458336716648866633284898031574592123216791821970989517602546368463, 0, 0, 0], [20194832349178074328255630030474794676357522951312816945265283318496141911576, 0, 0, 0], [33508834389330212986852784163678812323448884912646004437785005736522859730449, 0, 0, 0], [20197489266521008707527755143868210833027985912465941510937472218208331469324, 0, 0, 0], [38189796622106345878699238475711002255025750905901925248625120562682573353793, 0, 0, 0], [48437331749916394313065146750618123382683254942785601073233866557242834888501, 0, 0, 0], [34815884667490928168338620954175830688114531237099462583592020572423301193334, 0, 0, 0], [1316079587764339149090919530288539945185249635387918305928554726824292235069, 0, 0, 0], [33564480841331620167847153616337187248054503582700661803825728035418602546478, 0, 0, 0], [4635634898381888421672273828316335969974599848444510316738469345444620659008, 0, 0, 0], [8644506076646842294589324870931361199184791348209582052726445382015132439419, 0, 0, 0], [39498585060657083972778194861599167626335350278223243726925173218749695943806, 0, 0, 0], [42901602831339057007425445486193581840749112246589631302873671293308101878875, 0, 0, 0], [20119933204882102974459031584507100339282292349398588923453836079377072829543, 0, 0, 0], [7917862289043363038204972116125424279857433068189510615392330392863075948512, 0, 0, 0], [41284417024025222157952919191031968108126105524670279472881067727309802924938, 0, 0, 0], [11213861995768467857413038001306057240793870929626059934261458727946548965379, 0, 0, 0], [2291742710611132809700323762125675349484016058554275673428643410085506076100, 0, 0, 0], [30099159053997341705317995418169313532098300934328131162175924134794709943047, 0, 0, 0], [447035513285578307783519781307142266645679652807941291454847780415896684065, 0, 0, 0], [19941446202184504378547837635870560393064630187876613630546846906393007677289, 0, 0, 0], [7595261399959684629699197426920893479848768772071384660164934610968891053864, 0, 0, 0], [51598580281806900142260694365187051410317675046136337884836978415482902327015, 0, 0, 0], [12450848281586712352554721829724230078424064515794153380314705783292880037478, 0, 0, 0], [5237102499670441785007944785581992844697685968922355014280712201430686167152, 0, 0, 0], [1412524057853628881005630586377727487233247150373319518286783509614859257068, 0, 0, 0], [38519766408760192821848550196157518411386556623071006612683448412823634200875, 0, 0, 0], [11338671486975802181674275776989710780888734229624346786700048285586675342901, 0, 0, 0], [23124572501783393477231165425714476214042723292141825213493635111951207504070, 0, 0, 0], [21528356110015199451243279738115385806356940590132503530639630620611521954326, 0, 0, 0], [6284174238932569340060925799940162325946442751185026413727709496271066916876, 0, 0, 0], [48373517651545249281510690416218268384343400250317171450103976311090286221260, 27752440147182328733098243645400559151338503658043397110598417983425635093551, 43156725395743020846958899706072234263962738024394096815001388170789961679788, 48906049704561774201639151262665470255437206145980347197443063657678740507943], [24918160465086526594937065443815615610757370328053649165018481775513828479869, 36462368786443951186110721729238677880688318912401935278190656741197184273952, 37367696075403883562827939745268661270924157618310868295845006320225084994632, 42130603320119794983803262970740129474583503116320676437504579920473229006778], [12096038367976885628335054904138821822550042039079703385879844461517464118581, 34671362090033614505367959844073659507869267381932134573786004532584171425818, 15908652423714359894720614650322760756461828514699821946843077879932200328081, 7518568119601342737128460613704294443674406422237476295695786631549469567412], [33513737101700389003254558060695049730922342329295390135821890558696123720054, 49765425774819103826723198731734445691737353182147628471479513204868044796119, 48731721046471530891684818884908827036844194399863789073273030545326532602503, 1994879948378542466338304292753049990663872919840272992167645879411261807091]]
  pure val DIAG4: List[int] = [14102670999874605824, 15585654191999307702, 940187017142450255, 8747386241522630711, 6750641561540124747, 7440998025584530007, 6136358134615751536, 12413576830284969611, 11675438539028694709, 17580553691069642926, 892707462476851331, 15167485180850043744]
  pure val RC4: List[List[int]] = [[1431286215153372998, 3509349009260703107, 2289575380984896342, 10625215922958251110, 17137022507167291684, 17143426961497010024, 9589775313463224365, 7736066733515538648, 2217569167061322248, 10394930802584583083, 4612393375016695705, 5332470884919453534], [8724526834049581439, 17673787971454860688, 2519987773101056005, 7999687124137420323, 18312454652563306701, 15136091233824155669, 1257110570403430003, 5665449074466664773, 16178737609685266571, 52855143527893348, 8084454992943870230, 2597062441266647183], [3342624911463171251, 6781356195391537436, 4697929572322733707, 4179687232228901671, 17841073646522133059, 18340176721233187897, 13152929999122219197, 6306257051437840427, 4974451914008050921, 11258703678970285201, 581736081259960204, 18323286026903235604], [10250026231324330997, 13321947507807660157, 13020725208899496943, 11416990495425192684, 7221795794796219413, 2607917872900632985, 2591896057192169329, 10485489452304998145, 9480186048908910015, 2645141845409940474, 16242299839765162610, 12203738590896308135], [5395176197344543510, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [17941136338888340715, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [7559392505546762987, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [549633128904721280, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [15658455328409267684, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [10078371877170729592, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [2349868247408080783, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [13105911261634181239, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [12868653202234053626, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [9471330315555975806, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [4580289636625406680, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [13222733136951421572, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [4555032575628627551, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [7619130111929922899, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [4547848507246491777, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [5662043532568004632, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [15723873049665279492, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [13585630674756818185, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [6990417929677264473, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [6373257983538884779, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [1005856792729125863, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [17850970025369572891, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [14306783492963476045, 12653264875831356889, 10887434669785806501, 7221072982690633460, 9953585853856674407, 13497620366078753434, 18140292631504202243, 17311934738088402529, 6686302214424395771, 11193071888943695519, 10233795775801758543, 3362219552562939863], [8595401306696186761, 7753411262943026561, 12415218859476220947, 12517451587026875834, 3257008032900598499, 2187469039578904770, 657675168296710415, 8659969869470208989, 12526098871288378639, 12525853395769009329, 15388161689979551704, 7880966905416338909], [2911694411222711481, 6420652251792580406, 323544930728360053, 11718666476052241225, 2449132068789045592, 17993014181992530560, 15161788952257357966, 3788504801066818367, 1282111773460545571, 8849495164481705550, 8380852402060721190, 2161980224591127360], [2440151485689245146, 17521895002090134367, 13821005335130766955, 17513705631114265826, 17068447856797239529, 17964439003977043993, 5685000919538239429, 11615940660682589106, 2522854885180605258, 12584118968072796115, 17841258728624635591, 10821564568873127316]]
  pure val DIAG5: List[int] = [1083257840, 375892129, 111593398, 1867716110, 658182609, 51866717, 1928969209, 1942928017, 1558116381, 20525701, 1188752902, 106789798, 1389833583, 98371040, 1001081699, 1792686146, 801504236, 1997365680, 1461037801, 65998480, 1974912880, 606789471, 13683276, 918610824]
  pure val RC5: List[List[int]] = [[262278199, 127253399, 314968988, 246143118, 157582794, 118043943, 454905424, 815798990, 1004040026, 1773108264, 1066694495, 1930780904, 1180307149, 1464793095, 1660766320, 1389166148, 343354132, 1307439985, 638242172, 525458520, 1964135730, 1751797115, 1421525369, 831813382], [695835963, 1845603984, 540703332, 1333667262, 1917861751, 1170029417, 1989924532, 1518763784, 1339793538, 622609176, 686842369, 1737016378, 1282239129, 897025192, 716894289, 1997503974, 395622276, 1201063290, 1917549072, 1150912935, 1687379185, 1507936940, 241306552, 989176635], [1147522062, 27129487, 1257820264, 142102402, 217046702, 1664590951, 855276054, 1215259350, 946500736, 552696906, 1424297384, 538103555, 1608853840, 162510541, 623051854, 1549062383, 1908416316, 1622328571, 1079030649, 1584033957, 1099252725, 1910423126, 447555988, 862495875], [128479034, 1587822577, 608401422, 1290028279, 342857858, 825405577, 427731030, 1718628547, 588764636, 204228775, 1454563174, 1740472809, 1338899225, 1269493554, 53007114, 1647670797, 306391314, 172614232, 51256176, 1221257987, 1239734761, 273790406, 1781980094, 1291790245], [497520322, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [1930103076, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [1052077299, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [1540960371, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [924863639, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [1365519753, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [1726563304, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [440300254, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [1891545577, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [822033215, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [1111544260, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [308575117, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [1708681573, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [1240419708, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [1199068823, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [1186174623, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [1551596046, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [1886977120, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [1327682690, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [1210751726, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [1810596765, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [53041581, 723038058, 1439947916, 1136469704, 205609311, 1883820770, 14387587, 720724951, 1854174607, 1629316321, 530151394, 1679178250, 1549779579, 48375137, 976057819, 463976218, 875839332, 1946596189, 434078361, 1878280202, 1363837384, 1470845646, 1792450386, 1040977421], [1209164052, 714957516, 390340387, 1213686459, 790726260, 117294666, 140621810, 993455846, 1889603648, 78845751, 925018226, 708123747, 1647665372, 1649953458, 942439428, 1006235079, 238616145, 930036496, 1401020792, 989618631, 1545325389, 1715719711, 755691969, 150307788], [1567618575, 1663353317, 1950429111, 1891637550, 192082241, 1080533265, 1463323727, 890243564, 158646617, 1402624179, 59510015, 1198261138, 1065075039, 1150410028, 1293938517, 76770019, 1478577620, 1748789933, 457372011, 1841795381, 760115692, 1042892522, 1507649755, 1827572010], [1206940496, 1896271507, 1003792297, 738091882, 1124078057, 1889898, 813674331, 228520958, 1832911930, 781141772, 459826664, 202271745, 1296144415, 1111203133, 1090783436, 641665156, 1393671120, 1303271640, 809508074, 162506101, 1262312258, 1672219447, 1608891156, 1380248020]]
  pure val DIAG6: List[int] = [1, 1, 2]
  pure val RC6: List[List[int]] = [[24448666467656506447555018649749346340705294023832615387641453784702583464707, 19752610610343814834081989345964253902282700341539483876504601969121084774539, 9520793415506326549109545537894287560752519598132096386048093015534488804808], [22814234098357034097599682726494820560934925862581927123816510593532324971186, 3277621627834606517208177071759088097855048183641615082769528872043050020787, 19087113294497892618475669593723876605785307026981218038380435259594863105240], [17645770319151120318035258350885823104235488352935695302274836429012504407725, 17990728141399065004015538797609951295983853332644474801890158217822768128628, 12607949331462269429981198199999740921418125994747028428126661151190418292729], [10025233623562179533044093426455032352895184661359005809314430689113735312874, 20398677688057466110325934731430812468657996794663167456321709689030080949228, 1944662263588038198375346521900053780907777056656211622999059135594196413076], [12995068374816903282074967132431954020410301768622808407703775963080983755183, 0, 0], [13278128079226679628648689279705910775020794457648431336050464485837924986341, 0, 0], [21081768833381902942114733002158882075348844281359283013642620389621494952015, 0, 0], [20751788049060260683191405008569080723662271828149227137187075968560831545739, 0, 0], [20820291785607398388900832350860967875629907105847554413318238165275470374689, 0, 0], [6971878585215744613467847324629115462668098071102846520957717612260531709386, 0, 0], [21120353743307986506720883740380468652053382764895882204680310593048134053982, 0, 0], [7853308243263055176258751393326645428041138029306706980470113526802326214700, 0, 0], [17545076036297840030021082424260289805456380863517895917265467158332801090765, 0, 0], [10740853637774754893036062076749871837371049036966225040269105665447180116170, 0, 0], [24290796201833228559129233924595614281891670608675107544294264860003803501509, 0, 0], [26722678647461522072509896114724736555938247563993442152746954157222882824350, 0, 0], [20252491387019425681551488261397157776479297799360691728406809731508542196845, 0, 0], [17070806525931584028449131949070191143344166668070820337429561524629464200550, 0, 0], [25856554324149146992239414502939942208580094928192925471532421030223074525051, 0, 0], [17714998974036855356530338446243137421735047395517260588250413348153258772076, 0, 0], [20515196301761603016197694845695272699608637099106794944737311528118558777570, 0, 0], [10100400556460905874275078234698187530913105549037797180493988678937053918124, 0, 0], [12242010394227909997626655999345208835040087302065045201635069094289920778463, 0, 0], [6838505804652359252670794375725267665530548946030641535297433541475260948424, 0, 0], [21345718918993308853491352363460625447157796362108157527364130872100101143328, 0, 0], [26397988737034501095129796920971941795766209722106383463197090306632188634870, 0, 0], [27893799443241349360688137159923920340185830261519093384488134540544971987330, 0, 0], [3102550735908358465878301372253437950829524988677083749179431098369388780259, 0, 0], [2963742902601529003553690631564645593518709846059084207036841793643477514707, 0, 0], [24620569969402072776192280888011017497854992833864712509770555543278833718751, 0, 0], [25964807298150242099204032696543021731332498792173212422070959505270506288817, 0, 0], [15107529391758643095716794813038523751713309080738989300826699946985294497278, 0, 0], [26149402682269665088314773514719203730233986608723938665192802061570851149320, 0, 0], [14300403008645647974330112479193012555289445502185868105642182233848475582899, 0, 0], [1115361296285111421659408034287929280905078990986385263729179376131648187058, 0, 0], [13081790983218231663826423630402269594642175266089309953018053418396572757728, 0, 0], [8235521536407760690987948268259353704300918036393867110229857008864492272243, 0, 0], [10466479494603471110085160358255184712338985686117376680963274257033378093044, 0, 0], [10505351732961945434077967966272614185370876266035423475161721043839572600354, 0, 0], [20492577817846125120765219135044390230365666103475157006227551523345028416653, 0, 0], [9609702284002210167411637400029381999579573316818014884056109946803635903949, 0, 0], [5550990570115355104018261990072269149174220738166262960442108003631983239538, 0, 0], [4918607047827293284267178559571975167840449247468221935183514469924645319431, 0, 0], [22327941647779098096798004328483144118875590152725522668881024275272944414051, 0, 0], [12446460574596706595202266827006842340757403121130616325345603812748836460769, 0, 0], [27189681619715898792962291676467917480208426216006102231934586868572227499788, 0, 0], [8764133057432414528430129363242868018774698311348571048821261111352103735418, 0, 0], [10306763858151643521688107379000096066251452823515924808024537509180120590301, 0, 0], [18225419295569955709959264540894574108104760504259646575014370705413341659332, 0, 0], [5586023775523332359482150390241085503538343981397337410273960103664896061318, 0, 0], [1695250059692506203013076949309928562723368039356271828712091742435374824213, 0, 0], [22405375952478438071934186194392756316305143676541092887399118393981076553314, 0, 0], [10458537515857632902862111990551662021418451863412906712791662010765438376282, 0, 0], [8572903186653093823393996934308987796939174550688349948095623496677370491349, 0, 0], [26376584034857786080333290889331925169513316008268823389497001028535947725689, 0, 0], [7665731866090251989409614325607843738907805016631894070026948889862506085680, 0, 0], [4477111727391714901720242825845081209726923645743756019648580408082893195544, 0, 0], [24052818921338006126265655523211029781246213697245853990174101542814404796394, 0, 0], [2514052438055955996166191181555087722391472372457485613396039637466284876008, 0, 0], [15915052994762066788134349126706966018769870301280961502696575741203715471620, 0, 0], [14523364456910312064741833824384915970721514893070438053344001112980722532883, 8803956670977498145356652907229121212730957151393430875717273509992687004092, 10663098851045790689902302726099843869982323815663085170094254490745070606259], [15771722055033274898971962892589697054998768026073330065443825965063277326619, 24009394270524302139600659893428847877911428012188014930479974124593827497896, 22073551841352628264163147373911841152201793863183403625155779300264423096775], [16843535002948632653135556540328830165745557071105115915108598045919908377862, 1518205506066737062294516413663386248913537376120439498858484657705789460110, 16130557973030629467749350011718803160555727145300402111387384840879624701824], [8889838242573900603893251082243963471048473250580324046918980785903088175746, 26228644761030089864593236267771722990412818339075926138914275040572783608441, 12067734632794838098229971919863170976260163840996333398973186642649256640429]]
  pure val DIAG7: List[int] = [1, 1, 2]
  pure val RC7: List[List[int]] = [[24448666467656506447555018649749346340705294023832615387641453784702583464707, 19752610610343814834081989345964253902282700341539483876504601969121084774539, 9520793415506326549109545537894287560752519598132096386048093015534488804808], [22814234098357034097599682726494820560934925862581927123816510593532324971186, 3277621627834606517208177071759088097855048183641615082769528872043050020787, 19087113294497892618475669593723876605785307026981218038380435259594863105240], [17645770319151120318035258350885823104235488352935695302274836429012504407725, 17990728141399065004015538797609951295983853332644474801890158217822768128628, 12607949331462269429981198199999740921418125994747028428126661151190418292729], [10025233623562179533044093426455032352895184661359005809314430689113735312874, 20398677688057466110325934731430812468657996794663167456321709689030080949228, 1944662263588038198375346521900053780907777056656211622999059135594196413076], [12995068374816903282074967132431954020410301768622808407703775963080983755183, 0, 0], [13278128079226679628648689279705910775020794457648431336050464485837924986341, 0, 0], [21081768833381902942114733002158882075348844281359283013642620389621494952015, 0, 0], [20751788049060260683191405008569080723662271828149227137187075968560831545739, 0, 0], [20820291785607398388900832350860967875629907105847554413318238165275470374689, 0, 0], [6971878585215744613467847324629115462668098071102846520957717612260531709386, 0, 0], [21120353743307986506720883740380468652053382764895882204680310593048134053982, 0, 0], [7853308243263055176258751393326645428041138029306706980470113526802326214700, 0, 0], [17545076036297840030021082424260289805456380863517895917265467158332801090765, 0, 0], [10740853637774754893036062076749871837371049036966225040269105665447180116170, 0, 0], [24290796201833228559129233924595614281891670608675107544294264860003803501509, 0, 0], [26722678647461522072509896114724736555938247563993442152746954157222882824350, 0, 0], [20252491387019425681551488261397157776479297799360691728406809731508542196845, 0, 0], [17070806525931584028449131949070191143344166668070820337429561524629464200550, 0, 0], [25856554324149146992239414502939942208580094928192925471532421030223074525051, 0, 0], [17714998974036855356530338446243137421735047395517260588250413348153258772076, 0, 0], [20515196301761603016197694845695272699608637099106794944737311528118558777570, 0, 0], [10100400556460905874275078234698187530913105549037797180493988678937053918124, 0, 0], [12242010394227909997626655999345208835040087302065045201635069094289920778463, 0, 0], [6838505804652359252670794375725267665530548946030641535297433541475260948424, 0, 0], [21345718918993308853491352363460625447157796362108157527364130872100101143328, 0, 0], [26397988737034501095129796920971941795766209722106383463197090306632188634870, 0, 0], [27893799443241349360688137159923920340185830261519093384488134540544971987330, 0, 0], [3102550735908358465878301372253437950829524988677083749179431098369388780259, 0, 0], [2963742902601529003553690631564645593518709846059084207036841793643477514707, 0, 0], [24620569969402072776192280888011017497854992833864712509770555543278833718751, 0, 0], [25964807298150242099204032696543021731332498792173212422070959505270506288817, 0, 0], [15107529391758643095716794813038523751713309080738989300826699946985294497278, 0, 0], [26149402682269665088314773514719203730233986608723938665192802061570851149320, 0, 0], [14300403008645647974330112479193012555289445502185868105642182233848475582899, 0, 0], [1115361296285111421659408034287929280905078990986385263729179376131648187058, 0, 0], [13081790983218231663826423630402269594642175266089309953018053418396572757728, 0, 0], [8235521536407760690987948268259353704300918036393867110229857008864492272243, 0, 0], [10466479494603471110085160358255184712338985686117376680963274257033378093044, 0, 0], [10505351732961945434077967966272614185370876266035423475161721043839572600354, 0, 0], [20492577817846125120765219135044390230365666103475157006227551523345028416653, 0, 0], [9609702284002210167411637400029381999579573316818014884056109946803635903949, 0, 0], [5550990570115355104018261990072269149174220738166262960442108003631983239538, 0, 0], [4918607047827293284267178559571975167840449247468221935183514469924645319431, 0, 0], [22327941647779098096798004328483144118875590152725522668881024275272944414051, 0, 0], [12446460574596706595202266827006842340757403121130616325345603812748836460769, 0, 0], [27189681619715898792962291676467917480208426216006102231934586868572227499788, 0, 0], [8764133057432414528430129363242868018774698311348571048821261111352103735418, 0, 0], [10306763858151643521688107379000096066251452823515924808024537509180120590301, 0, 0], [18225419295569955709959264540894574108104760504259646575014370705413341659332, 0, 0], [5586023775523332359482150390241085503538343981397337410273960103664896061318, 0, 0], [1695250059692506203013076949309928562723368039356271828712091742435374824213, 0, 0], [22405375952478438071934186194392756316305143676541092887399118393981076553314, 0, 0], [10458537515857632902862111990551662021418451863412906712791662010765438376282, 0, 0], [8572903186653093823393996934308987796939174550688349948095623496677370491349, 0, 0], [26376584034857786080333290889331925169513316008268823389497001028535947725689, 0, 0], [7665731866090251989409614325607843738907805016631894070026948889862506085680, 0, 0], [4477111727391714901720242825845081209726923645743756019648580408082893195544, 0, 0], [24052818921338006126265655523211029781246213697245853990174101542814404796394, 0, 0], [2514052438055955996166191181555087722391472372457485613396039637466284876008, 0, 0], [15915052994762066788134349126706966018769870301280961502696575741203715471620, 0, 0], [14523364456910312064741833824384915970721514893070438053344001112980722532883, 8803956670977498145356652907229121212730957151393430875717273509992687004092, 10663098851045790689902302726099843869982323815663085170094254490745070606259], [15771722055033274898971962892589697054998768026073330065443825965063277326619, 24009394270524302139600659893428847877911428012188014930479974124593827497896, 22073551841352628264163147373911841152201793863183403625155779300264423096775], [16843535002948632653135556540328830165745557071105115915108598045919908377862, 1518205506066737062294516413663386248913537376120439498858484657705789460110, 16130557973030629467749350011718803160555727145300402111387384840879624701824], [8889838242573900603893251082243963471048473250580324046918980785903088175746, 26228644761030089864593236267771722990412818339075926138914275040572783608441, 12067734632794838098229971919863170976260163840996333398973186642649256640429]]
  pure val DIAG8: List[int] = [1, 2]
  pure val RC8: List[List[int]] = [[22, 5], [41, 0], [87, 37]]
  pure val DIAG9: List[int] = [1, 1, 2]
  pure val RC9: List[List[int]] = [[5, 41, 79], [87, 37, 80], [18, 0, 0], [67, 0, 0], [74, 0, 0], [96, 1, 68], [1, 72, 91]]
  pure val DIAG10: List[int] = [1, 1, 2]
  pure val RC10: List[List[int]] = [[143290441855, 11178793597118716, 2231597298581579750], [1605269383820126292, 1474664977922231884, 1834029517639163864], [1577035873826903059, 0, 0], [61045342379650105, 0, 0], [641411125983848288, 820880340645515552, 0], [2305843009213693950, 1, 203178155937223246]]
  pure val DIAG11: List[int] = [6, 14, 1, 15]
  pure val RC11: List[List[int]] = [[16, 4, 14, 16], [13, 0, 0, 0], [10, 0, 0, 0], [5, 0, 16, 1]]
  pure val DIAG12: List[int] = [6, 184, 169287, 143290441855]
  pure val RC12: List[List[int]] = [[4622864812024790433, 15033998787015618964, 16934491968738154186, 6700300423431231441], [4891849924002384424, 15481427883525764596, 6255549226417830539, 3329568739463863760], [2757376860939917910, 0, 0, 0], [12784177732803147742, 0, 0, 0], [8759754290200178682, 0, 0, 0], [12160370359069032436, 6271004988027233899, 9676623832979395534, 8473193845966185774], [9893943995198755347, 8972404307977044142, 16907197204664353662, 14055211108267605854]]
  pure val DIAG13: List[int] = [6, 87, 22, 5, 41, 79, 87, 37]
  pure val RC13: List[List[int]] = [[80, 18, 2, 54, 67, 78, 5, 74], [75, 0, 0, 0, 0, 0, 0, 0], [59, 0, 0, 0, 0, 0, 0, 0], [69, 43, 0, 96, 1, 71, 3, 66]]
  pure val DIAG14: List[int] = [6, 184, 38213, 17370, 53847, 57291, 42180, 31790, 52288, 8529, 54423, 49863]
  pure val RC14: List[List[int]] = [[11426, 18900, 35719, 59882, 50431, 0, 65536, 1, 57139, 43024, 56733, 31869], [31433, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [29876, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [58898, 46395, 59709, 21743, 1922, 54719, 31483, 54244, 0, 65536, 1, 19273]]
  pure val DIAG15: List[int] = [6, 184, 169287, 348561464, 612506563, 163609629, 73802662, 1768662287, 532671344, 1447141594, 1155034139, 1653950338, 26308030, 1699381981, 1271875929, 759356455]
  pure val RC15: List[List[int]] = [[533713426, 0, 2013265920, 1, 1157657164, 952389595, 1795124032, 1260606455, 1009219864, 1378934058, 1218363733, 921025873, 1493374818, 34090866, 2003517309, 117160631], [555875529, 1869219376, 0, 2013265920, 1, 99272706, 975317444, 227662920, 1138688158, 1415974026, 270408389, 1913132641, 1313553660, 1266778263, 1615765354, 215628581], [1283745228, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [1627660812, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [793989057, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [360104486, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [193165774, 476310082, 1903571250, 358022029, 681019444, 1348793199, 28720944, 0, 2013265920, 1, 316404727, 850029895, 633483360, 1909270467, 550081721, 2009026963], [1832904580, 1415946775, 1461353179, 857161311, 1385293373, 952580611, 247067622, 1424687482, 0, 2013265920, 1, 252810378, 220020492, 1913655091, 1917483866, 554799338]]
  pure val DIAG16: List[int] = [6, 87, 22, 5, 41, 79, 87, 37, 80, 18, 2, 54, 67, 78, 5, 74, 75, 0, 96, 1]
  pure val RC16: List[List[int]] = [[68, 1, 72, 91, 59, 21, 53, 62, 2, 11, 17, 84, 69, 43, 0, 96, 1, 71, 3, 66], [76, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [73, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [20, 73, 0, 96, 1, 88, 45, 68, 68, 71, 25, 64, 59, 91, 38, 0, 58, 3, 12, 0]]
  pure val DIAG17: List[int] = [6, 184, 169287, 143290441855, 102660753635005679205138, 12970893581881819264865098400234436275, 144927436899244000531448067498059730280, 26640606491424708086666891117820388642, 139389442296421033032080990078562431352, 144342972781518354314260088640850045253, 79115869137274296464472596932389139866, 102522505962077668063745860760895502195, 4145683046290983828045742266139671640, 154745711475209066702087368984221638405, 47503742181547967042766407932671611116, 111030280525701539838700061375185813243, 10063350038409025513742032248784510721, 0, 170141183460469231731687303715884105726, 1, 135598670037063262278345712357110660092, 81728524250274129009016091419134238952, 38587260759045886388088979230271405597, 167744608440086412497416956321119836748]
  pure val RC17: List[List[int]] = [[133604019598112728810580224286610224824, 43668341283598979138682654207849367253, 79332456005982404788653428950272133870, 81687276442791614414341921431281956022, 4719332832925186433780794416388313743, 114987086577196552491463561293136682202, 25653546360896873693708929558385737631, 73200559602370961656639914213577543805, 53858935948828257015434196882764766971, 5571640140651682343704425431634377438, 0, 170141183460469231731687303715884105726, 1, 138593529296488734483337966122864536403, 53390266721228773194985419907259210029, 93704126851709516289669171233651460739, 83930610900601498309575753754862948014, 19734985467702656021874686438750391947, 135285395035631302807787234136854587497, 132733199870147861984431849923824945262, 151774732614778694436711057463697503934, 12864726282397225088937959569469721083, 156535358278386643599581357427336783063, 55560185899372190879072026024963812153], [46944896200386402729636436634037787531, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [151485753197016425174353542525242097790, 37892058908524390243287911938430290103, 161207698545709297629947231964208583340, 19854993674105478443578994534554069721, 106081865105729308395993059869672322921, 110086442433069594918070898902535802521, 165174083927970251182630292510015674340, 84770968943761460953203741845902172910, 92497938344622687161714527413692113013, 154601831027424573603113110193734637319, 35738435329775352379011597332764752016, 167912084693250937715597427551284188700, 157849791550107320822626130924284643785, 0, 170141183460469231731687303715884105726, 1, 119249344951044034938645334723658308764, 13583972180229021559398348296832139809, 162264830521437938569303395008829171117, 121810897451378137049068210681765540396, 28236470604318237766573507357544309160, 48232845417056263796787262222946901945, 170138616938058382720754400514480099344, 154927857496241502397397646232149465050]]
  pure val DIAG18: List[int] = [1, 2]
  pure val RC18: List[List[int]] = [[22, 5], [41, 0], [87, 37]]
  pure val DIAG19: List[int] = [6, 184, 169287, 143290441855, 102660753635005679205138, 183112077042351050996552402140431573149, 52960632494214623484195425854584202395, 240811652230931381821400877372922184496]
  pure val RC19: List[List[int]] = [[286106952404632082755385696205649665683, 207169379352836200049499003908858933939, 284712160105581487272037933702412636362, 24165741447260494894938273718174693785, 174945155202024246527148465179583159055, 110659830123438511287467048100535637982, 11202744593733563610144016470675953658, 89499375209279904108717362050292482065], [243121593054702027868370095123873161849, 0, 0, 0, 0, 0, 0, 0], [143734296595803666305496475073711875151, 0, 0, 0, 0, 0, 0, 0], [220656761494810647490159001527230243019, 136139659385412523672385284091606487483, 0, 340282366920938463463374607431768211296, 1, 5601240259639758801409381141708647640, 213742415933557158885924375426129566619, 143531494799476084182414060452271405653]]
  pure val ALL_DIAGS: List[List[int]] = [DIAG0, DIAG1, DIAG2, DIAG3, DIAG4, DIAG5, DIAG6, DIAG7, DIAG8, DIAG9, DIAG10, DIAG11, DIAG12, DIAG13, DIAG14, DIAG15, DIAG16, DIAG17, DIAG18, DIAG19]
  pure val ALL_RCS: List[List[List[int]]] = [RC0, RC1, RC2, RC3, RC4, RC5, RC6, RC7, RC8, RC9, RC10, RC11, RC12, RC13, RC14, RC15, RC16, RC17, RC18, RC19]
}
