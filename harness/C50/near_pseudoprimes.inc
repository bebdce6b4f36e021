// Composite numbers that pass a strong-probable-prime test for all but one of the bases a deterministic
// Miller-Rabin of seven, six, five, four, three or two bases uses: dropping or mistyping any one base accepts some of them.
static const u64 NEAR_PSEUDOPRIMES[] = {
    385003ULL, 1056331ULL, 670208533ULL, 2510569ULL, 249679501ULL, 252722557ULL, 2035153ULL, 45786133ULL, 54255521ULL, 10403641ULL, 48141169ULL, 48481679ULL, 3375487ULL, 4863127ULL, 9808651ULL, 14324473ULL, 829512001ULL, 830664451ULL, 835051057ULL, 155239979ULL,
    497503ULL, 665281ULL, 954271ULL, 670567301ULL, 247912897ULL, 1537381ULL, 54459841ULL, 8086231ULL, 9493903ULL, 275712533ULL, 72884701ULL, 3913003ULL, 4686391ULL, 4181921ULL, 6249541ULL, 608917753ULL, 2251549ULL, 3167539ULL, 3470921ULL, 4119301ULL,
    13921380091ULL, 53917204771ULL, 4619489761ULL, 96739069591ULL, 293348873221ULL, 11296130581ULL, 5135049811ULL, 7510714061ULL, 11450123527ULL, 4307915431ULL, 2486831491ULL, 153521940833ULL, 12084138991ULL, 62712442501ULL, 22629114901ULL, 3982017601ULL, 308286402031ULL, 13642463971ULL, 3951029161ULL, 164171845351ULL,
    22158223921ULL, 265196971621ULL, 17142390541ULL, 3928653581ULL, 6662681437ULL, 2002446821ULL, 251599801207ULL, 15191521441ULL, 12236869721ULL, 8351582341ULL, 69631203067ULL, 2621977627ULL, 18781463861ULL, 7699123441ULL, 1070941987ULL, 3020299327ULL, 37025937451ULL, 4235818861ULL, 164509129207ULL, 20632808701ULL,
    19406944409ULL, 339898063753ULL, 96998143747ULL, 86745122887ULL, 227085094081ULL, 1813073653ULL, 11642679751ULL, 2895004927ULL, 83131449787ULL, 20152741897ULL, 1583230241ULL, 5806270441ULL, 247059934241ULL, 4302347941ULL, 10306980433ULL, 1462393201ULL, 4712408821ULL, 81896508541ULL, 41626302637ULL, 41650789267ULL,
    38122702627591ULL, 3153121523221ULL, 7354615386691ULL, 7681246004251ULL, 8411321338111ULL, 38564058527191ULL, 2766096649891ULL, 36733604701951ULL, 992698974361ULL, 439705522261ULL, 396053680261ULL, 6908273097391ULL, 2284969360411ULL, 41301520385131ULL, 5825654900101ULL, 824869294831ULL, 1659138181381ULL, 1495795266631ULL, 14175584075071ULL, 2318439807811ULL,
    1418855594227ULL, 12587245941121ULL, 1058863911661ULL, 52657210792621ULL, 2540712201301ULL, 1078688923201ULL, 1097417421253ULL, 2342950278401ULL, 410994572801ULL, 2731931869633ULL, 27130108692781ULL, 8593171723261ULL, 5893848261181ULL, 860873403781ULL, 945922068517ULL, 2295911012581ULL, 10147158860581ULL, 10148023823941ULL, 12164078476009ULL, 28786394571301ULL,
    12648244441141ULL, 7891734792061ULL, 9369998022547ULL, 1203395684041ULL, 433192400033ULL, 12569904961741ULL, 601439413387ULL, 887327169121ULL, 1499540181049ULL, 11182027480801ULL, 796337156317ULL, 1265702003281ULL, 4522585993087ULL, 28480219035049ULL, 38016422730721ULL, 408317485507ULL, 33705702549751ULL, 3467957371147ULL, 33655838763907ULL, 15837385293451ULL,
    3032408657851ULL, 358671891241ULL, 2124181635577ULL, 5026103290981ULL, 1858672012861ULL, 12783236670907ULL, 5888081692261ULL, 11002372259581ULL, 2573820876061ULL, 1087142169121ULL, 9594860917027ULL, 12369188731201ULL, 12370650757921ULL, 358562937001ULL, 1981292077441ULL, 659209620847ULL, 7233718201027ULL, 21474842959081ULL, 19210174000951ULL, 1008145330741ULL,
    184535515761031ULL, 5752909581113971ULL, 904880026158421ULL, 1776615337733671ULL, 216337919571091ULL, 569079815117131ULL, 66977638461311ULL, 69627946840201ULL, 788650998006691ULL, 385985927668771ULL, 128111728370671ULL, 933573719940751ULL, 78804238735531ULL, 58497054376771ULL, 233527634082991ULL, 2172859096204891ULL, 99922418302981ULL, 1503814886392591ULL, 5012513970189391ULL, 2185248960598411ULL,
    175981585172221ULL, 727222392461251ULL, 1429800726741661ULL, 1464688614504781ULL, 5627629081456201ULL, 2543559835652947ULL, 1455568918349281ULL, 96753554604481ULL, 785820255949081ULL, 749536124439961ULL, 897988188909241ULL, 723927181307221ULL, 172170760571461ULL, 459728867960641ULL, 1284813148332421ULL, 187990348711327ULL, 721257479228287ULL, 3601713191809501ULL, 1105415820264421ULL, 395835108263827ULL,
    441236095644961ULL, 125941043159821ULL, 64473207517153ULL, 158360711673097ULL, 3953274879854561ULL, 536886427760101ULL, 780437614561741ULL, 416029664406427ULL, 117496428330401ULL, 219179889727987ULL, 679214562097501ULL, 86967705614653ULL, 2096597339039521ULL, 3885681764869453ULL, 2120184873844381ULL, 347400763484321ULL, 6639748225353253ULL, 2321540259501781ULL, 292954603765141ULL, 231243555449341ULL,
    59381592195997ULL, 136652856044251ULL, 4951370967643981ULL, 104551059562951ULL, 1288066178710561ULL, 968815117522981ULL, 438806137051981ULL, 116378295561067ULL, 731053130203369ULL, 2756946139740833ULL, 3025838200663981ULL, 473595966068689ULL, 393641223761633ULL, 73809810232021ULL, 105084748802767ULL, 7935309057092761ULL, 670627979127541ULL, 7588356364010701ULL, 219662432133769ULL, 336943952130241ULL,
    61641047020351ULL, 1466562849642721ULL, 2293825560018301ULL, 441141277803661ULL, 1558126077515101ULL, 407244152697661ULL, 155007474099409ULL, 217253708580061ULL, 3728924752611061ULL, 6219983665881901ULL, 532833697763641ULL, 62093493199081ULL, 1265276466036901ULL, 454110356973157ULL, 2495388653415157ULL, 475700492646289ULL, 306634819105621ULL, 176049130105621ULL, 637705614900961ULL, 140521908251341ULL,
    9174123534428551ULL, 97033931421894811ULL, 15748331913846533ULL, 65076883683597451ULL, 85938993609317551ULL, 57411877858670611ULL, 136972325736960031ULL, 20138884578024031ULL, 11261171997257491ULL, 137286041032988191ULL, 8286239593871011ULL, 8982929318646533ULL, 48338216773970311ULL, 33879102216697891ULL, 376806497707413091ULL, 15842879599209211ULL, 66859929789069691ULL, 312849882516847591ULL, 516346484961122731ULL, 54905557387946401ULL,
    107809607544215041ULL, 9290704429495261ULL, 15521606314239061ULL, 119357847279458101ULL, 62969382511012981ULL, 223332842984230981ULL, 98786172926517667ULL, 67287881278151467ULL, 11225713346757001ULL, 175728436342575481ULL, 63667399588218007ULL, 549139423846534951ULL, 188665825586976481ULL, 19659208537052281ULL, 9544922895779701ULL, 55686962557782181ULL, 133260548376771649ULL, 85540189725013297ULL, 565266011446515601ULL, 22202698566976021ULL,
    454121007539517181ULL, 29551372087218187ULL, 82025234301783961ULL, 76076819349071941ULL, 547475351458181581ULL, 573236928298481281ULL, 73401795462973477ULL, 20623090119952321ULL, 185071849552496341ULL, 10329133601015197ULL, 333084498917815009ULL, 51574750915494241ULL, 13545618999944041ULL, 29096506818847621ULL, 36297717790733101ULL, 52834393202559361ULL, 57823163630269381ULL, 34751886279984721ULL, 29436140426096587ULL, 58171781237916781ULL,
    35173126745114221ULL, 14843726125892641ULL, 106507721878864741ULL, 462779868714794881ULL, 370416980022072961ULL, 83591006211915361ULL, 48458340743228461ULL, 295583768866131301ULL, 89200996747344901ULL, 220464245066157121ULL, 12482476798112527ULL, 214394044632945547ULL, 53062695107636581ULL, 55424242630161541ULL, 91966557511100161ULL, 20310467916944341ULL, 20292298013600887ULL, 29285017532153633ULL, 127383798649220821ULL, 18419283575169751ULL,
    11755541474448661ULL, 41133241653949147ULL, 264418441376662561ULL, 521615024916046627ULL, 98140998677964661ULL, 494484695259884101ULL, 80987311574085157ULL, 204733088026239961ULL, 23719961430411751ULL, 32544365040900833ULL, 510567212167288741ULL, 79986257190253261ULL, 272544352022446927ULL, 408923702952876541ULL, 32910193348545061ULL, 24107108914547569ULL, 24409057728206401ULL, 315333574592354251ULL, 482849921630089621ULL, 45061801591306781ULL,
    81284781917151541ULL, 14837469290535781ULL, 115080949253455741ULL, 18077792014778653ULL, 153886905527963653ULL, 47516940503528653ULL, 60432333783244741ULL, 9422167992265801ULL, 238489458972611681ULL, 365185136974170061ULL, 11904105744657253ULL, 420909775587094207ULL, 13188197406795067ULL, 8344216950294781ULL, 231529221817110253ULL, 52553487043616653ULL, 10242078459448501ULL, 97920999939567421ULL, 45041121840186361ULL, 30764141666222581ULL,
    10789182056764461871ULL, 935136791758314991ULL, 660995991123073651ULL, 8852206477457436031ULL, 1361431673536170151ULL, 7628506828557587911ULL, 1431056211353916421ULL, 9467660469010458331ULL, 8228805255895078891ULL, 3563361207762964471ULL, 1205829183005552251ULL, 813389796881824051ULL, 1373402027712147751ULL, 7401517554034200691ULL, 613741215498958891ULL, 1130590801056512071ULL, 1111435389221519251ULL, 9015308752147596991ULL, 7409850750826040611ULL, 637095240941306491ULL,
    5972767197360315661ULL, 3492333236236477951ULL, 4704741687771799381ULL, 16250186451605655361ULL, 1273483708946530381ULL, 4112255316660449941ULL, 2061601986017231101ULL, 13701252488600130301ULL, 9989481393067498561ULL, 5841222414840891541ULL, 6469416442371371581ULL, 11402157871184029951ULL, 13718569033049103541ULL, 11437583526998621821ULL, 15973106813615840041ULL, 838308851922969967ULL, 1176638207826705601ULL, 18296507507592494251ULL, 1330652914539449581ULL, 14023352503530802801ULL,
    1213011743587909453ULL, 1603110287659997161ULL, 930778389914192821ULL, 8367271567566760621ULL, 790258754646733633ULL, 3593700064262313253ULL, 2184790210081684453ULL, 4852992849554260951ULL, 7929863430639485653ULL, 3555057521885805253ULL, 1850529063457529461ULL, 14794731531333700381ULL, 7387944409665670861ULL, 4762530940107330253ULL, 800605614131395381ULL, 1388292337682073253ULL, 1740857291663089601ULL, 2623911627431636821ULL, 3346215669338452921ULL, 4089005626387114261ULL,
    1749132062348703007ULL, 2175011596395329581ULL, 12125621375363735821ULL, 2126499979731859621ULL, 876846565458534877ULL, 8617603001534252641ULL, 2488530136217778901ULL, 11590145181698867101ULL, 1316671506074869561ULL, 2053544217499032121ULL, 780042119108661181ULL, 6471090909693966601ULL, 1449424131697997461ULL, 4301012683203042241ULL, 2626257942325422721ULL, 10124927106881195701ULL, 5447412361007061121ULL, 4206343768891736033ULL, 1598596664472543781ULL, 2860989318044828587ULL,
    3496177426279242721ULL, 6891993278118171541ULL, 3469558741436312227ULL, 744209713061692741ULL, 2587470627704313781ULL, 1322152838287045381ULL, 5291326158453772867ULL, 2865067888794675301ULL, 2031182447761319581ULL, 9110159164693920451ULL, 3902907429329106061ULL, 2046478056486115141ULL, 1899964221165753601ULL, 3581890266058474147ULL, 13846550657747505127ULL, 786960900505920601ULL, 3905386113907051021ULL, 3928160176587440641ULL, 6274902099683494621ULL, 6163592558545802407ULL,
    18310838578996957507ULL, 1795881440392943221ULL, 4302379415613623581ULL, 753941384242825351ULL, 2473224264654252427ULL, 14167416883860335101ULL, 8808725603552900941ULL, 803583724861394821ULL, 8543373529416062851ULL, 1020001422275141221ULL, 1114261928866123381ULL, 1400107476785635621ULL, 4474240245966180007ULL, 1349049011636657633ULL, 16341281183649094921ULL, 1069932594836150251ULL, 12510822286572393967ULL, 13795992798626591101ULL, 695037337990480621ULL, 4039919160979663261ULL,
    655592241942469261ULL, 4225473460353345661ULL, 8938209495985113961ULL, 11174029649312024881ULL, 5027155139565528661ULL, 1300744046170832581ULL, 1360266714105946741ULL, 11505984622553625751ULL, 11107906704028628101ULL, 7535863433181768301ULL,
};
