// 1110 digits, computed with mpmath 1.3.0 at 1130 digits (independent of the library).
static const char KHINCHIN_DIGITS[] = "2.6854520010653064453097148354817956938203822939944629530511523455572188595371520028011411749318476979951534659052880900828976777164109630517925334832596683818523154213321194996260393285220448194096180686641664289308477880620360737053501033672633577289049904270702723451702625237023545810686318501032374655803775026442524852869468234189949157306618987207994137235500057935736698933950879021244642075289741459147693018449050601793499385225470404203377985639831015709022233910000220772509651332460444439191691460859682348212832462282927101269069741823484776754573489862542033926623518620867781366509696583146995271837448054012195366666049648269890827548115254721177330319675947383719393578106059230401890711349624673706841221794681074060891827669566711716683740590473936880953450489997047176390451343232377151032196515038246988883248709353994696082647818120566349467125784366645797409778483662049777748682765697087163192938512899314199518611673792654620563505951385713761697126872299805327673278710513763956371902314528900305813691090479967275757138504356505064159082099962340277905383418098512127852945541510192327397";
static const char GLAISHER_DIGITS[] = "1.282427129100622636875342568869791727767688927325001192063740021740406308858826461129736491958202374394206461203990007489331577913627752804041590725738617275221433432714343978733506791525736685690787656114668644999778496275451817431239465276128213808180219264516851546143919901083573730703504903888123418813674978133050937708336822224941158748373480643999788300701255670012869941577054320539275854058173158815548176297038474325046777514737460003161602304661329634299155809587929336343887288701988953460725233184702489001091776941712153569193674967261270398013526526688689782188974017293758407501674721148952888159966687431645138903069626455987046954374025309960680084244741755406149018944413938619608912968217352879862988434220366989900606980888785849587494085307347117090132667567503310523405221054141767761563081919199971852370477613123153741353047258198147974517610275408349431438496523413945337306583232567395495760169225642773692635882169215987077585827469575162841550648585890834128227556209547002918593263079373376942077522290940187086951957378071130966735177030019976191628410262375272681637822903373436258";
