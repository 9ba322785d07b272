// Published SAP table: radii and weighted block sums (24 knots per block) of the
// tabulated effective charges, recorded once; the oracle compares with what the code returns.
#pragma once
static const double sap_x[]={0,3.88998520894912e-10,1.24307589430273e-08,9.41788619243655e-08,3.95590944314572e-07,1.20225134827429e-06,2.97645909467376e-06,6.39486990764576e-06,1.23819370533851e-05,2.21384641412303e-05,3.71646626934341e-05,5.92771969796721e-05,9.06197969236522e-05,0.000133667125284592,0.000191221696142517,0.000266403756233519,0.000362634157093561,0.000483610362445513,0.000633275849973865,0.00081578327776647,0.00103545189151146,0.00129671974734631,0.00160409141550073,0.00196208191012068,0.00237515765962654,0.00284767538853797,0.00338381982497285,0.00398754117728862,0.00466249333808352,0.00541197377374379,0.00623886604286632,0.00714558585739081,0.00813403155655611,0.00920553980648188,0.0103608472681166,0.0116000588945247,0.0129226234262344,0.014327316552022,0.0158122320935885,0.0173747814577539,0.0190117014807666,0.0207190706679402,0.0224923337098962,0.0243263340360935,0.0262153540488808,0.0281531625688132,0.0301330689161459,0.0321479829558636,0.0341904803458193,0.0362528721508775,0.0383272779215565,0.0404057012845238,0.0424801070552028,0.0445424988602609,0.0465849962502166,0.0485999102899344,0.0505798166372671,0.0525176251571994,0.0544066451699867,0.0562406454961841,0.0580139085381401,0.0597212777253137,0.0613581977483264,0.0629207471124917,0.0644056626540583,0.0658103557798458,0.0671329203115556,0.0683721319379636,0.0695274393995984,0.0705989476495241,0.0715873933486894,0.0724941131632139,0.0733210054323365,0.0740704858679967,0.0747454380287916,0.0753491593811074,0.0758853038175423,0.0763578215464537,0.0767708972959596,0.0771288877905795,0.0774362594587339,0.0776975273145688,0.0779171959283138,0.0780997033561064,0.0782493688436347,0.0783703450489867,0.0784665754498467,0.0785417575099377,0.0785993120807957,0.0786423594091566,0.0786737020091006,0.0786958145433868,0.078710840741939,0.0787205972690268,0.0787265843361726,0.0787300027469856,0.078731776954732,0.0787325836151359,0.0787328850272183,0.0787329667753213,0.0787329788170817,0.0787329805666732,0.0787330226849153,0.0787333086137395,0.0787343628571918,0.078737184298331,0.0787433899118714,0.0787553464239937,0.0787762872777476,0.0788104125016542,0.0788629693577407,0.0789403119589416,0.0790499383896659,0.0792005042319654,0.0794018117873787,0.0796647746850644,0.0800013579740163,0.0804244942045459,0.0809479764054374,0.0815863292518931,0.0823546600894766,0.0832684918248572,0.0843435800098115,0.0855957167256083,0.0870405241161247,0.0886932406159385,0.0905685030710016,0.092680128051848,0.0950408957108744,0.0976623395351241,0.10055454529404,0.103725962378484,0.107183230574418,0.110931025114146,0.11497192260301,0.119306290133397,0.123932199575273,0.128845368677969,0.134039130236992,0.139504430177968,0.145229854993543,0.151201688544458,0.157403997809557,0.163818746747662,0.170425937023473,0.177203773956174,0.184128855679269,0.191176383158967,0.198320388411391,0.20553397799067,0.21278958859476,0.220059251456909,0.227314862060999,0.234528451640279,0.241672456892702,0.2487199843724,0.255645066095495,0.262422903028196,0.269030093304008,0.275444842242112,0.281647151507211,0.287618985058126,0.293344409873701,0.298809709814677,0.3040034713737,0.308916640476397,0.313542549918273,0.317876917448659,0.321917814937523,0.325665609477251,0.329122877673185,0.33229429475763,0.335186500516545,0.337807944340795,0.340168711999821,0.342280336980668,0.344155599435731,0.345808315935545,0.347253123326061,0.348505260041858,0.349580348226812,0.350494179962193,0.351262510799776,0.351900863646232,0.352424345847123,0.352847482077653,0.353184065366605,0.353447028264291,0.353648335819704,0.353798901662003,0.353908528092728,0.353985870693929,0.354038427550015,0.354072552773922,0.354093493627676,0.354105450139798,0.354111655753338,0.354114477194477,0.35411553143793,0.354115817366754,0.354115859484996,0.354115863928018,0.354115959347067,0.35411660711998,0.354118995512807,0.354125387499178,0.354139446341882,0.354166533868702,0.354213975458013,0.354291286291503,0.354410354062628,0.354585574040072,0.354833933164545,0.355175040692373,0.355631103777543,0.35622684729128,0.356989378100721,0.357947994951172,0.359133946005418,0.360580136974175,0.362320793610236,0.364391083121764,0.366826699775361,0.369663420595343,0.37293663761217,0.376680873561329,0.380929288276827,0.385713183255378,0.391061511984191,0.397000403625052,0.403552707529633,0.410737565827286,0.418570020980095,0.427060664745855,0.436215334434439,0.446034861695145,0.456514878341544,0.467645682917336,0.479412170843634,0.491793830078139,0.50476480327354,0.518294016460587,0.532345373315075,0.546878013112394,0.561846629542625,0.577201846667774,0.592890647464157,0.608856849619908,0.625041622561981,0.64138403907943,0.657821654399415,0.674291105167161,0.690728720487146,0.707071137004595,0.723255909946668,0.739222112102419,0.754910912898803,0.770266130023952,0.785234746454182,0.799767386251502,0.81381874310599,0.827347956293036,0.840318929488437,0.852700588722942,0.86446707664924,0.875597881225032,0.886077897871431,0.895897425132137,0.905052094820722,0.913542738586481,0.92137519373929,0.928560052036943,0.935112355941524,0.941051247582385,0.946399576311199,0.951183471289749,0.955431886005247,0.959176121954406,0.962449338971234,0.965286059791215,0.967721676444812,0.969791965956341,0.971532622592401,0.972978813561159,0.974164764615404,0.975123381465856,0.975885912275297,0.976481655789033,0.976937718874203,0.977278826402032,0.977527185526505,0.977702405503948,0.977821473275073,0.977898784108563,0.977946225697874,0.977973313224694,0.977987372067398,0.977993764053769,0.977996152446596,0.97799680021951,0.977996895638559,0.977996905559954,0.977997117265641,0.97799855447562,0.978003853588836,0.978018035451664,0.978049227723858,0.978109326661406,0.978214585038522,0.978386114133244,0.978650289101609,0.97903904864217,0.979590081581067,0.980346894860782,0.981358759364157,0.982680532018573,0.984372354671828,0.986499232279009,0.989130494956374,0.992339150412106,0.996201135124021,1.00079447437148,1.0061983628153,1.01249217873039,1.01975444620801,1.02806176063975,1.03748769355566,1.04810169340366,1.05996799911672,1.0731445833135,1.08768214171708,1.10362314485806,1.12100096735921,1.13983910909168,1.16015052126081,1.18193704904201,1.20518900076559,1.22988485186711,1.25599108990561,1.28346220493265,1.31224082740277,1.34225801368189,1.37343367706632,1.40567716010502,1.43888794195278,1.47295647250437,1.50776512319899,1.54318924266945,1.57909830386693,1.61535712794436,1.65182716904896,1.68836784327557,1.72483788438017,1.7610967084576,1.79700576965508,1.83242988912554,1.86723853982016,1.90130707037176,1.93451785221952,1.96676133525822,1.99793699864264,2.02795418492176,2.05673280739188,2.08420392241892,2.11031016045742,2.13500601155894,2.15825796328252,2.18004449106373,2.20035590323285,2.21919404496532,2.23657186746647,2.25251287060746,2.26705042901104,2.28022701320781,2.29209331892088,2.30270731876888,2.31213325168478,2.32044056611652,2.32770283359414,2.33399664950923,2.33940053795306,2.34399387720051,2.34785586191243,2.35106451736816,2.35369578004553,2.35582265765271,2.35751448030596,2.35883625296038,2.35984811746375,2.36060493074347,2.36115596368236,2.36154472322292,2.36180889819129,2.36198042728601,2.36208568566313,2.36214578460068,2.36217697687287,2.3621911587357,2.36219645784891,2.36219789505889,2.36219810676458,2.36219812984976,2.36219863276416,2.3622020469077,2.36221463514004,2.36224832466072,2.36232242301522,2.36246519018368,2.36271523521062,2.36312270868956,2.36375026574385,2.36467377789039,2.36598277627918,2.36778061320295,2.37018433340022,2.37332425145746,2.37734323647796,2.38239571004972,2.38864636833531,2.39626864374799,2.40544292609768,2.41635456721684,2.42919169684528,2.44414288090456,2.46139465617263,2.48112897773257,2.50352061737655,2.52873455236825,2.55692338458283,2.58822483004239,2.62275931824431,2.66062773944792,2.7019093762593,2.74666005346008,2.79491053710016,2.84666521045958,2.90190105063145,2.96056692524568,3.02258322430419,3.08784183730216,3.15620648083934,3.22751337685535,3.30157227653076,3.37816781985902,3.4570612159891,3.53799222474093,3.62068141527529,3.70483267382599,3.79013592873575,3.87627005783468,3.96290594051081,4.0497096146861,4.13634549736224,4.22247962646117,4.30778288137093,4.39193413992163,4.47462333045599,4.55555433920782,4.6344477353379,4.71104327866615,4.78510217834157,4.85640907435758,4.92477371789476,4.99003233089273,5.05204862995124,5.11071450456547,5.16595034473733,5.21770501809675,5.26595550173684,5.31070617893761,5.351987815749,5.38985623695261,5.42439072515452,5.45569217061409,5.48388100282867,5.50909493782037,5.53148657746435,5.55122089902428,5.56847267429235,5.58342385835164,5.59626098798008,5.60717262909923,5.61634691144893,5.6239691868616,5.63021984514719,5.63527231871896,5.63929130373946,5.64243122179669,5.64483494199397,5.64663277891773,5.64794177730652,5.64886528945307,5.64949284650736,5.64990031998629,5.65015036501323,5.6502931321817,5.65036723053619,5.65040092005688,5.65041350828922,5.65041692243276,5.65041742534716,5.65041748436537,5.65041880840687,5.65042779694984,5.6504609384584,5.65054963411542,5.65074471561563,5.6511205840623,5.6517788869262,5.65285165754449,5.65450385039614,5.65693521525216,5.66038146410875,5.66511469639989,5.67144306017204,5.679709639495,5.69029057118304,5.70359240670766,5.72004874779574,5.7401161964271,5.76426967157913,5.79299715593089,5.82679394566175,5.86615648530296,5.91157587718377,5.96353116123453,6.02248246566787,6.0888641322761,6.16307792170482,6.24548640405939,6.33640663856702,6.43610424277459,6.54478794695474,6.66260472309112,6.78963557011029,6.92589202803698,7.07131348360595,7.22576531872031,7.3890379411703,7.5608467243996,7.74083287001985,7.92856519342596,8.12354281945872,8.32519876180037,8.53290434687553,8.74597443066056,8.96367334516807,9.18522150064696,9.40980255988586,9.63657109257692,9.86466061061565,10.0931918795894,10.3212813976281,10.5480499303192,10.772630989558,10.9941791450369,11.2118780595444,11.4249481433295,11.6326537284046,11.8343096707463,12.029287296779,12.2170196201852,12.3970057658054,12.5688145490347,12.7320871714847,12.8865390065991,13.031960462168,13.1682169200947,13.2952477671139,13.4130645432503,13.5217482474304,13.621445851638,13.7123660861456,13.7947745685002,13.8689883579289,13.9353700245371,13.9943213289705,14.0462766130212,14.091696004902,14.1310585445433,14.1648553342741,14.1935828186259,14.2177362937779,14.2378037424093,14.2542600834973,14.267561919022,14.27814285071,14.286409430033,14.2927377938051,14.2974710260963,14.3009172749528,14.3033486398089,14.3050008326605,14.3060736032788,14.3067319061427,14.3071077745894,14.3073028560896,14.3073915517466,14.3074246932552,14.3074336817981,14.3074350058396,14.3074351755517,14.3074391050831,14.3074657815593,14.3075641399547,14.3078273736724,14.3084063425902,14.3095218566064,14.3114755882327,14.3146593900961,14.3195628192076,14.3267786991237,14.3370065832064,14.3510540165825,14.3698355305672,14.3943693406877,14.4257717574301,14.4652493568417,14.5140889955557,14.5736457910682,14.6453292226281,14.7305875403424,14.830890699551,14.9477120637081,15.0825091415151,15.2367036425128,15.4116611494601,15.6086707153792,15.8289246979564,16.0734991439785,16.343335031639,16.6392206689195,16.9617755319871,17.3114358088466,17.6884418906205,18.0928280261517,18.5244143255145,18.9828012649519,19.467366810213,19.9772662377894,20.5114346947127,21.0685924979585,21.6472531347178,22.245733885438,22.8621689532128,23.4945249463907,24.140618526736,24.7981360036425,25.4646546262533,26.1376653003188,26.8145964356084,27.4928386130033,28.1697697482929,28.8427804223584,29.5092990449691,30.1668165218756,30.812910102221,31.4452660953988,32.0617011631736,32.6601819138938,33.2388425506532,33.796000353899,34.3301688108222,34.8400682383987,35.3246337836598,35.7830207230972,36.2146070224599,36.6189931579911,36.9959992397651,37.3456595166245,37.6682143796921,37.9641000169726,38.2339359046332,38.4785103506553,38.6987643332324,38.8957738991516,39.0707314060989,39.2249259070965,39.3597229849036,39.4765443490606,39.5768475082692,39.6621058259835,39.7337892575434,39.793346053056,39.84218569177,39.8816632911816,39.9130657079239,39.9375995180444,39.9563810320291,39.9704284654052,39.9806563494879,39.987872229404,39.9927756585156,39.9959594603789,39.9979131920052,39.9990287060215,39.9996076749392,39.9998709086569,39.9999692670524,39.9999959435286,39.9999998730599,};
static const int sap_n=701, sap_block=24;
static const double sap_sum[118][30]={{54.744225484776148,53.289810853822593,54.101594832280149,52.504181896317243,51.255199859211823,52.147577911794377,50.805883530614937,47.639146622859871,46.355372693525537,46.670059360346815,40.140709834020174,36.627913682075068,35.203365872428126,35.230396818866959,27.983927362557576,21.846092664979465,21.544048650705597,21.607260348748799,15.577685373837921,8.8551784868316705,7.7268121445164034,7.2865884024520084,3.8987908566492763,0.66158179935695906,0.30828373955068335,0.27970114568715021,0.077878965904660571,1.6500689703491396e-13,1.4827028493868988e-13,2.9976021664879275e-14,},
{109.46173728125455,105.61987230705551,104.22457983153183,99.581803440236883,97.096192591915698,96.518479898689346,84.592632369468997,73.492711858461483,71.021409419587478,69.138125484741381,49.952443097922143,39.854305793848666,37.703029282431467,36.883913642364948,25.237511468832017,16.837495035900913,16.087849200082975,15.841235840191686,9.0172247928887102,3.1905850471101538,2.4105194939959484,2.2126785174886293,0.79996228357353242,0.040082261630350212,0.0033163663707559136,3.4143798899322062e-12,3.5260683262094966e-13,2.7577939931688888e-13,2.8343993818680246e-13,5.7454041524351851e-14,},
{164.18032979269791,157.97759906242721,154.44965208331188,146.8281109224983,143.10932478283969,141.32537064307373,121.62669127410539,105.55419296454297,102.06460851687422,99.888056106257012,76.44627188958846,65.152854668656518,62.142970886440433,61.480682600966236,45.968965294706083,37.0778578887681,37.218611792385925,37.733342810052594,31.135721066339418,22.945550303243726,21.755046052241144,20.876582284100272,14.97863707723968,5.4981874060511798,3.6189368475411414,3.3800941332645067,1.405770905437459,0.059389766866240018,-1.8240964294591313e-13,-4.4964032497318804e-14,},
{218.89120358431601,210.05366515704418,203.56928652842948,192.64722305416389,187.70642413626733,184.38419569798043,156.86880226271458,136.24381862101236,131.78786595164143,129.23259123131227,98.836552667532275,83.010452972092555,79.088334514920356,78.361938129919512,60.03099628509177,45.157261015736947,44.143794570467236,44.064970786597451,30.786123155047784,17.847572788387614,15.829945131544792,14.980895375120147,8.4752782914277258,1.6583571526911956,0.82319767987874954,0.750664857146661,0.22619159599543733,1.0476064460362972e-12,2.4646951146678497e-13,4.9960036108132089e-14,},
{273.5965103566403,261.92716235318691,251.94091290686285,237.54382806677878,231.39208238369121,226.41478986269781,191.11123106210067,165.6445132153643,160.18673067741285,156.74452708902441,117.82449351667931,98.823810939408971,94.182318685075664,93.059923995201144,66.184495620287792,44.911647100303546,43.210644262260963,42.801753523326614,27.945088162275324,15.269499130965433,13.519588532910328,12.808641423399486,7.7029273347457559,2.0775485027321859,1.2370858404627752,1.1460745863752427,0.42721708526100906,0.0080055781592068013,-3.492761635470744e-13,-6.9944050551384898e-14,},
{328.29464690900145,313.54346465694002,299.36866169004923,281.26344689450579,273.91290056160226,267.02958977670505,222.89769796099405,191.53995425442893,185.04717916856786,180.1107848049695,132.19332985561579,107.50199240995737,101.74564851702593,99.340804144838871,64.766843334681616,40.879789289562388,38.970923838944398,38.437457591743602,24.105174229779991,12.32279147658242,10.673013718450951,10.062919642933959,5.496977490512486,1.0643599441591797,0.53657072175517715,0.4900804288769905,0.15049055653123411,7.7471362658343444e-13,4.4364512064021273e-13,8.9928064994637715e-14,},
{382.98574611864449,364.9092911821506,345.89807921976165,323.87055434702853,315.33284116986627,306.2792854648305,252.00230002417601,213.83108562333684,206.32321137776395,199.68541269505035,141.65507648284022,109.46101778111623,102.7943290257268,99.236015302912693,60.467977091656697,36.437785368043619,34.547910298292567,33.985492126981417,20.64108162925566,9.7578230222599189,8.2148066900255689,7.6995033067930936,3.8044358559179772,0.53872496692728323,0.23236604429792273,0.20957207115442526,0.053751078790975746,-9.0594198809412754e-14,-9.8587804586713879e-14,-1.9984014443252813e-14,},
{437.6698676521086,416.02858118253064,391.55716612590558,365.40042880576384,355.68633036747525,344.1701285754337,278.36480489992422,232.84930638243523,224.39341225267696,215.9317407875369,146.37017560491248,107.12174840997355,99.910038668368915,95.570014881351992,55.439791983935805,32.424437592837304,30.626598465179427,30.065720871833125,17.689459788813879,7.6698256275216071,6.2634822902703853,5.8353032065762304,2.6243448796671476,0.27694309855165315,0.10269927801866093,0.091546211619762322,0.019204042781883712,5.7553961596568098e-13,5.9152682752028323e-13,1.1990408665951687e-13,},
{492.34704573065595,466.90420014750067,436.36470310734101,405.87249254478173,394.99178469008946,380.69113226328057,302.0666631223882,248.92121832088962,239.56910448072932,228.92832656177154,147.2344569050607,102.44237128665444,95.006226213862945,90.233017816816394,50.545848297322342,28.961234658475256,27.264531089496858,26.710515598949457,15.189654315508342,6.0103877884466169,4.7586402307718471,4.4072654016973132,1.8163610347946198,0.14485872270825683,0.04627979970979228,0.0407985857534777,0.0065775122460907222,7.6738615462090803e-13,7.8870243669371103e-13,1.5987211554602251e-13,},
{547.01730303068691,517.53844609697131,480.33348690472283,445.29629673508982,433.25774284841521,415.82720572598367,323.22226674953388,262.08785529263878,251.84884356501068,238.60976277149216,145.31173111879209,96.68420478286088,89.259559870603708,84.317102713636077,46.085022621393309,25.98821776190024,24.38060739383205,23.831505495226237,13.065260894530045,4.705168761180223,3.6116013067972719,3.32585582479669,1.2635708809926634,0.076961852825902343,0.021197615802141832,0.018488804541740304,0.00067144684143102939,1.9184653865522701e-13,1.9717560917342776e-13,3.9968028886505627e-14,},
{601.693469324845,568.38755483671954,525.33970102331987,486.22392591429554,473.03001150108076,453.24269024837879,350.29195889412302,283.49603296128848,272.38332216505545,257.97811869826914,160.52493676282309,113.99418526164166,106.52550201629476,102.58074597188435,64.790219061535583,42.825998098349682,41.647064664207453,41.674985078851882,32.393251132779012,23.724561851449666,22.531177969173825,21.629913559488973,15.640120812756123,5.8588495275455217,3.8887873890213569,3.6347717113669008,1.5273951154252859,0.067679959500165892,-7.6427753015195801e-13,-1.5987211554602251e-13,},
{656.36586558495374,619.11018763086355,569.99022823306568,526.75137859131792,512.40807486599726,490.17739853617208,376.812987627646,304.28933975365536,292.3118409231284,276.83087155356511,175.76446892249628,129.81104052947742,121.94002122805446,118.18716683640311,77.238245807951681,53.704766268542443,52.490726135082467,52.453216240541038,37.30789251290521,22.58323565602326,20.367832846074737,19.346006997843985,11.650405875528254,2.7022520411891055,1.4491224549538062,1.3298435509354425,0.43459676669773794,0.0037650875133204368,4.1699976804920871e-13,7.9936057773011253e-14,},
{711.03675136693603,669.78728857017647,614.60116079538305,567.2900665971571,551.80081168670914,527.19706853689795,404.0234789170492,326.18043096157357,313.36902010128532,297.22975975828545,193.69870125918786,147.52206461595257,139.00417858157351,135.2261129283261,91.096138676880643,63.412551741852298,61.407362652084589,60.992281386391217,40.659097674156047,23.33358932339378,21.10027007747757,20.085618591226792,13.189136250257691,4.5199635776034634,2.9824080886758831,2.7877652358740852,1.1800120253969704,0.055025748184702703,1.4033219031261975e-13,1.9984014443252813e-14,},
{765.70417143354847,720.35070957368494,658.89193794069403,607.45178740907477,590.82045251652923,563.74757110001839,430.61805582385358,347.46481421223157,333.85408439582962,317.15938556070455,210.28548067730563,161.70419318473293,152.38878506618383,148.29523461863851,99.523082159576884,65.8164994886259,62.926734617316922,62.097538705976954,39.112947641202668,20.9991595175836,18.632222893562221,17.659661874871302,10.559798964857478,2.632398942474062,1.4892976049183927,1.3733966683419278,0.48015371331966706,0.0070870408273800042,0,0,},
{820.36825426969395,770.80592850136254,702.87923781792495,647.251740138191,629.48170875303923,599.85516412263617,456.63692573825567,368.24851567299974,353.87111117493204,336.66436753160535,225.16972016281287,172.79275039141843,162.74096874390735,158.29572488927394,103.34404870656497,64.095943561529397,60.616688108548546,59.516650658006655,35.906528765230294,18.008045996302173,15.602942637889363,14.711926591189808,8.0056560468801813,1.4986640778912005,0.73940568808614284,0.67410156343432687,0.20299861406979022,1.1906031716080181e-12,5.9152682752028323e-13,1.1990408665951687e-13,},
{875.02904264576624,821.15528264016766,746.56670027837812,686.68900659452219,667.78342457199617,635.52497210689019,482.0786793978582,388.54113544073256,373.42059085906316,355.65253771210812,238.1276142835639,181.38286245527365,170.67517024130559,165.62763298538702,103.40578758507451,60.362358417374978,56.616246168891327,55.388610370668361,32.329208875984769,15.136016003034883,12.788063245782794,11.994641367391312,5.9823248072141168,0.86146993991112951,0.37362082844374712,0.33710336973882254,0.088503513199492579,3.1086244689507477e-15,-9.9653618690354033e-13,-1.9984014443252814e-13,},
{929.68655628758597,871.40019794210194,789.95430403164155,725.75933946958162,705.7213150552973,670.75708008878039,506.93353309592942,408.29996678715962,392.44709979680997,373.97184750635229,249.13512118053609,187.60478223257577,176.15053819746359,170.08151973089788,100.76475679351468,55.878650558816978,52.101696484845979,50.843146196979186,28.872593028032262,12.598579070589891,10.374377531320126,9.6808762412419839,4.4560099922425053,0.50187511655500314,0.19217794961369445,0.17172549592321819,0.03875349849073643,9.6900265589283645e-13,9.8587804586713883e-13,1.9984014443252814e-13,},
{984.34080663115205,921.54172066977547,833.04076528366518,764.45837582557767,743.29114239456783,705.54977257526042,531.18693727995501,427.44372031778598,410.85587635113216,391.4448140242703,258.2378523395602,191.19034166532294,178.85382713543804,171.51007513576516,96.417103609542143,51.31518414155232,47.647123606773364,46.410041643736046,25.70080721894549,10.432161962106954,8.3720938242821439,7.7736852175509346,3.3216193525971513,0.29623519168109205,0.10055272422196798,0.08909135525602794,0.017389141596104901,6.8657080021239368e-11,-1.8207657603852562e-12,-4.3964831775156185e-13,},
{1038.9988510728614,971.83102873302765,876.85199563746968,804.17942493729224,781.88287737024303,741.89393670081515,559.32534984196561,451.91533701388234,434.58688155775438,414.92258944131719,276.78911299900577,207.64982281941409,194.56032050958962,187.17812707350421,111.56580417297538,66.524673219014985,63.036293518604642,62.017460946566434,40.628403421399982,27.98993330807002,26.838423117153757,25.828971187742811,19.642156961629101,8.4112986713816063,5.9025122714151451,5.5439368412081635,2.4999933730790246,0.15364953303958646,4.2188474935755941e-13,-7.9936057773011253e-14,},
{1093.654691055225,1022.0561121936782,920.51716970674064,843.73792504530178,820.31507086758475,778.08934014649553,587.40602673194256,476.28432484882559,458.18905440160623,438.06134964952217,294.48896025987014,222.48275420552036,208.64137539075194,201.1654921757716,123.39589088230739,75.805221520467142,72.2356954821075,71.395841063762684,48.714413240484208,30.585097577687588,28.0855016653135,26.78730899764401,17.447733573961471,5.0334549640143828,2.9712306958538138,2.7485836307237971,0.99774472058111919,0.021809186363472567,1.2567724638756769e-12,2.3980817331903374e-13,},
{1148.305013767854,1072.098826529854,963.52886626253447,882.43005849641224,857.88467923671354,813.07996895307331,612.62952233247397,496.49564191231574,477.58446932969041,456.13380265303931,303.91430854550098,226.15538348038023,211.60716115705197,203.44223779059076,122.90389736219785,74.953602203311803,71.502829435770957,70.712889113518904,47.53713677253492,28.520765785855774,25.891042348590171,24.637303685945721,15.429598768158104,4.0287877363013297,2.2817942532163766,2.1037049947358015,0.73202956881531318,0.012212309907907949,4.0678571622265726e-13,7.9936057773011253e-14,},
{1202.9519294139417,1122.0347745191511,1006.1993201792167,920.68601814362293,895.02151559199845,847.49697563104821,636.60760451357205,514.85992837545775,495.10634750672439,471.99650373536269,310.19427205952789,226.41287175475753,211.32495849070081,202.53934211521184,120.33413591757601,72.813991404015978,69.455653123536894,68.663400218550056,45.517930640453124,26.572542717838147,23.948426544779175,22.753980478211663,13.870272625037909,3.3617256489015522,1.8398484742244257,1.6912637946080714,0.56494631661866835,0.0063784572655844834,2.7604585284279885e-12,5.5955240441107875e-13,},
{1257.5950981903721,1171.8519836545675,1048.4722246587246,958.42776809385717,931.64771694918743,881.21770195773999,659.01250984813961,530.94340722501695,510.33015281315095,485.24148893055658,312.85820088752507,222.97173118826135,207.51596254393224,198.15665838824433,115.40572281158594,69.099188228191024,65.843715894145996,65.046630939633266,42.765582885313978,24.765646874429377,22.277459080812948,21.157295690264153,12.800853699050368,3.0486605703563309,1.6577569134663777,1.5231055459381829,0.50554916032094843,0.0055832108144862271,3.9941383533914623e-12,7.9936057773011257e-13,},
{1312.2350624649906,1221.5700737683308,1090.4263205628457,995.76451384272348,967.87242970271648,914.39869455369318,680.24417105834284,545.35825202964987,523.88259346396168,496.65679738591782,313.30731012785513,217.84896795576163,202.18156784527155,192.37705833862118,109.93641481857089,65.156843047342396,62.017919279165569,61.228340319054315,40.049717115785998,23.143135764409447,20.8108371992238,19.762571982078213,11.940654177675342,2.8446871331243573,1.5497522179477333,1.4241514766612885,0.4740451055998354,0.0052926019205217243,1.7745804825608499e-12,3.5971225997855065e-13,},
{1366.8721085715814,1271.1994843447952,1132.1019918517222,1032.7523312919342,1003.7516385002207,947.11751702800415,700.49941979028087,558.43675866783032,536.10812057532828,506.66612723677682,312.34838276187928,212.14052645590704,196.39280499778709,186.28859683703433,104.75581853111438,61.567842224411132,58.548181285912825,57.774291484141936,37.649273121001485,21.715369299174838,19.518298907474239,18.53316310381181,11.182111988040524,2.6649254870790313,1.454442218263265,1.3368144364345634,0.44616351991093918,0.0042012523389071094,-3.9435121834685552e-13,-7.9936057773011253e-14,},
{1421.5062417760797,1320.7405488438871,1173.4972060747015,1069.3884425062343,1039.2824479819651,979.36483561227958,719.75936661368637,570.21566673435581,547.05222277810655,515.31844287690284,310.1978413213788,206.08970577569479,190.36894392493037,180.08537518711302,99.892015576768376,58.307998012147817,55.407407364672548,54.654271321940325,35.516303052984084,20.446608348269502,18.367720477428298,17.438522370468235,10.505629283170379,2.504008449307335,1.3688135559949413,1.2583218166980731,0.42100931428033374,0.0040507131228119934,6.0751403907488548e-13,1.1990408665951687e-13,},
{1476.1374604729199,1370.1933188700418,1214.6091038126946,1105.6686108630075,1074.4604276377603,1011.1300299476601,738.00957194503314,580.73585461390984,556.76053924038215,522.6490679804546,307.05242545516544,199.86472826953116,184.25638023793178,173.89031637094188,95.33927534638466,55.339340249071624,52.555596945724366,51.826084381704958,33.605283327340494,19.307551182859933,17.333287278805716,16.45421079831601,9.8968582128219013,2.3589859634698228,1.2914951269075634,1.1874305558160394,0.39816742372778244,0.0038131641539866701,3.6655123381024161e-12,7.194245199571013e-13,},
{1530.7657712440576,1419.5581070258684,1255.4362197784505,1141.59012991542,1109.282613020413,1042.4057338438821,755.25009318968107,590.04692036347588,565.28299241025586,528.69943186372873,303.10889668100693,193.60629583293714,178.17673777213024,167.80553620279022,91.09859765634857,52.638211151419952,49.9673838531247,49.26279078432624,31.886680914916541,18.278284303972926,16.396920846921329,15.56299299093068,9.3443092490949081,2.2264287272401672,1.2204807133254574,1.1222933404358807,0.37709130319355208,0.0036410987972433822,2.1316282072803001e-14,0,},
{1585.3917903738386,1468.8570696567333,1296.0693601477454,1177.2769901704035,1143.8725337802698,1073.3723581284011,771.94744080670674,598.82368971291484,573.293411328437,534.25123200838924,299.71296375931001,188.89949550131024,173.68551980647469,163.4261719221375,88.491636774806627,51.178995949948071,48.591900005576867,47.909843552660169,30.990420709482158,17.640265032519517,15.771546753365477,14.958084074354689,8.8584363196331649,2.0281151373544843,1.0912195083259039,1.0018573553961833,0.32981030417949602,0.0019284860666117536,1.9717560917342777e-12,3.9968028886505628e-13,},
{1640.0187769323423,1518.2072248348494,1336.9997029647821,1213.404899197608,1178.9047624805183,1105.0254962616522,790.56197555939211,610.44682877311984,584.17678525216195,543.24649548201787,302.92480518897241,192.90304091972726,177.79788403488338,167.90345238125001,93.105978013457134,54.788791805381545,52.082710981893646,51.358428111036618,32.84194525966701,17.744899728403689,15.540911186430719,14.673461345609369,8.0268224316851427,1.4414619192661075,0.68769173509956707,0.62508256465059966,0.18056119699851327,4.5208281562736364e-13,1.9717560917342776e-13,3.9968028886505627e-14,},
{1694.6463058403471,1567.5913974792748,1378.1364965288741,1249.8414937443561,1214.2463810593067,1137.1555627739238,810.50295350653483,624.06716097014755,597.07493843535835,554.68051822955569,311.01774262795751,203.28520415836711,188.21904395716502,178.93206786222597,104.0349423271291,63.721355921729824,60.795816826390357,60.016777495006231,38.564878481337294,21.94520929623634,19.922269360908732,18.983899643769928,12.684028312582776,4.4606892235878186,2.9593841626064912,2.7674051728045189,1.1783958444299355,0.056125433169414399,-2.7711166694643901e-13,-7.9936057773011253e-14,},
{1749.2720278051253,1616.9271338798237,1419.1503082497404,1286.1417856497613,1249.453548923596,1169.1334733052385,830.34932867296995,637.72558038055223,610.01943225114452,566.25764944201688,319.76364181315579,213.46509825764841,198.22126597643162,189.13694244452025,111.91019944518916,68.283082342864845,64.871331760319794,63.867732584956478,39.771270090364828,21.445169112403697,19.100155553604608,18.118012006517847,10.971918706232831,2.8087872016888433,1.605103799206154,1.4814207877117385,0.52368440784755611,0.0080521819375812789,-1.5774048733874221e-12,-3.1974423109204501e-13,},
{1803.8960074437913,1666.2167225517985,1460.0491072431184,1322.3145983347261,1284.5348204839079,1200.9714414855681,850.11772001370581,651.4238319259315,623.0114109797679,577.99060120688753,328.95494489542832,223.07294889532644,207.46958275021102,198.2820214916258,117.47607653562394,69.96212099463095,66.007053196931316,64.748204235311325,38.856543881967264,19.63692340961929,17.10190027648309,16.14320774813925,8.9433621343372739,1.7545577041358785,0.88398730377328358,0.80729126716362505,0.24866116840955059,3.5734970538214833e-11,3.3963942769332781e-12,6.3948846218409003e-13,},
{1858.5182215425912,1715.4593228730448,1500.8282030745067,1358.3516312646608,1319.4817416314145,1232.6578899503356,869.77202316390558,665.09918064111757,635.98938685460915,589.81692348094364,338.27521407105059,231.72605302135035,215.63429990519488,206.13873286439331,120.95467520452628,69.546317987337293,65.134998718210635,63.667249752646945,36.938529721191255,17.514754745253054,14.915099514837531,14.012824679417025,7.1722834491858753,1.1111425568869551,0.49911139141268737,0.45158448005612969,0.12280836022296038,3.6060043839825076e-13,3.9435121834685552e-13,7.9936057773011253e-14,},
{1913.138648012946,1764.6541254422144,1541.4831097353486,1394.2449965803075,1354.2863421946084,1264.1822384530658,889.27960021234404,678.7008374718824,648.90490119318024,601.68377186349236,347.44911592945304,239.21701932299616,222.56859705654986,212.63857016614169,122.53790512752228,67.726145254764804,63.008829428766552,61.403320134733357,34.600700255023731,15.420930018127819,12.844501259511041,12.013376034355544,5.724238283660511,0.71404832669159544,0.28778581961261633,0.25817190640659758,0.062596456302287503,4.0323300254385677e-13,3.9435121834685552e-13,7.9936057773011253e-14,},
{1967.7572705360085,1813.8005192964548,1582.0102099341448,1429.9881982456802,1388.9421083824722,1295.5360666794012,908.61377819099296,692.19232076464282,661.72401340680871,613.5482176652712,356.25337566676953,245.48051387555444,228.25515519487635,217.78831951952198,122.45931124606155,65.054203647479171,60.183402810786921,58.506375134664682,32.143336836098432,13.479824775095026,10.985595924130258,10.230714912688471,4.5651410379818212,0.46484646931098566,0.16876309056912124,0.15019214061142002,0.032214040915895591,1.151079231931362e-12,1.1830536550405665e-12,2.3980817331903374e-13,},
{2022.3795674452152,1863.0932079742807,1623.2001910730765,1466.6493234373948,1424.5141246786239,1328.2414766556791,931.24855308062152,710.28906413414328,679.17512722730952,630.90141869310984,373.58312256618498,263.27762337004083,245.63977301558825,235.63020790784048,139.1968460944527,80.949658483246635,76.294483098627862,74.844800204972513,46.324504730010872,29.572131679478579,28.285764662534527,27.226996374963121,20.929074327168607,9.2817143376629254,6.6100435873897693,6.216561528119519,2.8569430671046013,0.18882903755818033,0.001776901156992729,4.7961634663806748e-13,},
{2077.0004366419028,1912.3512455622245,1664.3150310964312,1503.2267111250638,1460.0034296099976,1360.8663350720705,953.88128049714405,728.50530718445843,696.76194759050243,648.48367183926274,390.65301129591813,280.23684787112886,262.12887777833814,252.3464551311063,153.09939276116998,91.64722897374284,86.66891636536297,85.187398644733188,54.875106619972649,33.874871827984121,31.23889988404635,29.82766064546304,19.890773400949868,6.1497049462518129,3.7410388561310333,3.4694848861805954,1.3031202828876922,0.033812220268810966,1.9557688801796754e-12,3.9968028886505628e-13,},
{2131.6182136938082,1961.5142362947258,1705.0941576649873,1539.3579063992896,1495.0479509962736,1392.8744591916142,975.24795625432124,745.15533893265123,712.79758108486071,664.32379141836769,404.19015228563177,291.60573619909588,272.85480298436951,262.61689163874229,158.03842646346436,93.425132414527835,88.236902853319243,86.725326021297435,55.335127689649743,32.359377851192063,29.383363073570822,27.971817408510592,17.771619666136484,4.922761679099836,2.8844240002354007,2.6681175515106123,0.98225594407827322,0.02863122194566358,2.0090595853616829e-12,3.9968028886505628e-13,},
{2186.2337438894997,2010.6125828376892,1745.664834622707,1575.2180995607331,1529.8228029759873,1424.5255481261924,995.97912805151998,761.10090058337912,728.14428031220404,679.39604205748692,415.79319291269614,299.89259298628384,280.40903710671526,269.40525082285471,159.23608128965705,92.358241785984077,87.048895654228502,85.485874099114849,53.641130880105018,30.225043393723431,27.186475608492347,25.830507773921753,15.854964250705105,3.9645127665127908,2.202885624147197,2.0275952669417139,0.68921552158138012,0.01022805249738145,7.8870243669371103e-13,1.5987211554602251e-13,},
{2240.8467420715918,2059.6357594807138,1785.9798578638774,1610.7413225793745,1564.2621932620309,1455.7231629746067,1015.8606439701491,776.05943575688562,742.51708823725277,693.3423562117074,424.88450746790487,304.37344001452125,284.08531241454422,272.02754823170362,156.4733287195464,88.508188722149063,83.169499901639637,81.558446219320275,50.389257706864936,27.933929104198961,25.052821640989108,23.789436909699034,14.46433061879469,3.5417351745985691,1.9530215491946554,1.7965115955403757,0.60565982320491436,0.007663584296918421,2.3661073100811329e-12,4.7961634663806748e-13,},
{2295.4569462688341,2108.5742438795081,1825.9978524162696,1645.8707144378095,1598.3094923428732,1486.3860456671038,1034.7156260770054,789.78849721197355,755.66969890134164,705.84619692334247,430.96941174307233,304.47224796270086,283.3373857654579,269.96758299887279,149.48678796371996,81.680911487331633,76.424460780800063,74.794503158338914,45.500414354832385,25.136080457104637,22.595413147385477,21.468904580595916,13.243244262168804,3.4375152046801065,1.9581325704751711,1.8063918534014588,0.63323311301095065,0.010577968147393348,3.9435121834685552e-13,7.9936057773011253e-14,},
{2350.0653954743271,2157.4654911208865,1865.8764837946133,1680.8242138208097,1632.1825137678265,1516.8353356419613,1053.2958631445456,803.28285859868882,768.59375816523035,718.02760899642048,435.96117134981285,303.05533632340144,281.10497529350002,266.46439099341785,142.09140450693854,75.045764466250634,69.924496991489371,68.305184489057361,40.88559521700098,22.268874593240927,19.992535282891393,18.994960417267213,11.798265471572767,3.2235858281065715,1.8974672127617982,1.7557113822843666,0.6423655689320664,0.013618349545061386,-3.1548097467748441e-12,-6.3948846218409003e-13,},
{2404.6720732599404,2206.3088054266956,1905.611265058269,1715.5957424401417,1665.8752911810045,1547.0624502716759,1071.5840020896592,816.50453830014427,781.24705100900591,729.81537772924381,439.82547783917806,300.19183327282694,277.48668469754672,261.65581408224896,134.41433722703281,68.612604319775885,63.661152304936761,62.069972760456916,36.441443020887797,19.130116204508275,16.992457324285256,16.11227446267244,9.775772343437052,2.654817132444604,1.5901885263197936,1.4743981300851772,0.55837240171985161,0.01394183646788046,1.6200374375330281e-12,3.1974423109204501e-13,},
{2459.2776807265789,2255.1292312985385,1945.3052856967967,1750.3268977983808,1699.5292666141364,1577.2732976847629,1090.0584798648016,830.08186217184926,794.25502571980155,741.92058065313543,443.85138756358353,297.85132538871134,274.5016999900143,257.74824482435078,128.98186022248237,64.574436190149049,59.795208257685306,58.251306568289029,33.85745466857042,17.267078605329579,15.169108218885231,14.349487567828928,8.3584937783505914,2.0351638838524971,1.1634601581351719,1.0745238943236919,0.38587582851702587,0.0060251741462412074,1.6573409311604333e-12,3.1974423109204501e-13,},
{2513.8816037380381,2303.9045350892756,1984.8635665111174,1784.887313915189,1733.0143460223889,1607.2779056376463,1108.2799666779297,843.40154057591054,806.99918111346793,753.61263402323414,446.91365928523466,294.55205547153318,270.66255903118808,253.13117771202294,123.78462909478785,61.062152376441957,56.470829074294191,54.983695753369707,31.721830615268862,15.781952192031837,13.732243392067578,12.963986730711743,7.2922690345622937,1.6051040217166426,0.87535944282385219,0.80519321654278277,0.27378836786514676,0.0018705384647675474,3.9435121834685552e-13,7.9936057773011253e-14,},
{2568.4867766380712,2352.7398503803941,2024.7236729498266,1819.877401867795,1766.9299481199203,1637.9472961815884,1128.2533550564067,859.14546078363119,822.16316209526586,768.00986568850133,454.31834190443829,297.85565147372691,273.61296827707625,256.01804074818602,127.65082305067678,65.400751779471523,60.873007666093042,59.455513324475455,35.692969557073088,19.574073030680841,17.56970735387758,16.687411305738628,10.212787213310893,2.5915495504703324,1.4609773715841652,1.3465308534411625,0.46599349064184345,0.0060208272167225845,1.1830536550405665e-12,2.3980817331903374e-13,},
{2623.0911391091176,2401.5615447970543,2064.579928047574,1854.8798659624401,1800.8596566171262,1668.6770444658159,1148.5643022669506,875.36421156709452,837.78917044437602,782.82936803323882,462.28538360068826,302.32152504436733,277.80463120780104,260.2975444202699,132.44487561735985,69.696784084882993,65.127876233752626,63.729013823620987,38.695089968552026,20.738917684172564,18.314112174266391,17.326605056340939,9.8193000308073054,1.9483142569624273,0.97326305916845421,0.88794881468970485,0.26953514866326178,3.7498892879739277e-12,2.3661073100811329e-12,4.7961634663806748e-13,},
{2677.6959857475931,2450.4141729470273,2104.6088958543964,1890.1340450670397,1835.0421894910764,1699.8084674689346,1169.9945332186823,893.09725865307137,854.91676845819093,799.2892927279352,472.86914893977175,310.85730686030559,286.17326315346438,269.14326803242805,142.49040810200463,78.867892411711025,74.255471700902357,72.897255230368582,45.120158695220879,24.943940248270609,22.504994095683337,21.41867785536658,14.079482065627775,4.8680350899589383,3.2230204102085939,3.0134924136701351,1.2802456727112491,0.060441123098179655,3.7658764995285301e-13,7.9936057773011253e-14,},
{2732.299546278796,2499.235760994851,2144.5621378453296,1925.3051640456388,1869.1437683028595,1730.8633265601861,1191.4191369619608,910.7793669239276,871.97425660426136,815.56776953838957,483.09958799185761,319.11988568702374,294.26124266549615,277.58279357099861,150.41454594302779,84.666013700862893,79.760141936991475,78.264508886671645,47.558170125008693,25.120197460633166,22.326579537780376,21.175291455464623,12.874343291210581,3.3886147803223892,1.9647452327421597,1.8155849462906872,0.65249511003043787,0.012942188867575956,7.8870243669371103e-13,1.5987211554602251e-13,},
{2786.9019307401274,2548.0301426958692,2184.4544266644099,1960.4134701117429,1903.184564949993,1761.8691024400518,1212.8882639494531,928.45602175568189,889.00635647437144,831.7339357518163,493.12872744452006,327.24709332615066,302.18343301586606,285.71149718005661,156.77699783499055,88.227803770495159,82.86307694711077,81.126372937341114,47.803091980178536,23.849587764723241,20.812606040312263,19.660512312981772,11.08500665753615,2.3099109655068911,1.1979843895133769,1.0966450598663241,0.3480466430566414,0.00179477176574216,3.1548097467748441e-12,6.3948846218409003e-13,},
{2841.5031528601869,2596.797739220522,2224.2868056179087,1995.4606264367141,1937.1662084592061,1792.8268235847208,1234.3908820638505,946.09262896884941,905.97843902224226,847.76683507348888,502.94784102446248,335.14066863603761,309.82009359324611,293.38644307167264,161.73352444161298,89.919003942326125,84.011016263136998,81.999662981575518,46.760338702445285,22.061061427598042,18.90122298251567,17.785221787134216,9.3655799988763091,1.5860207628821986,0.74392044380064053,0.6754119068740182,0.19277249784512751,2.607691840239567e-12,2.3661073100811329e-12,4.7961634663806748e-13,},
{2896.1032117903786,2645.5384583478167,2264.0583262153318,2030.4455733897529,1971.08760293821,1823.7337032436398,1255.9070360407001,963.64628425693464,922.84848259697586,863.6374193514023,512.52378555065897,342.66857421006957,317.02443260126819,300.45455230525929,165.36246779743496,90.03821109360386,83.602061985554322,81.34026062914126,44.99083665368241,20.132410733810151,16.93935853208636,15.879324407006461,7.8569173511017188,1.1006892584476309,0.47003440405745333,0.42357037325792265,0.10946340396796519,1.2185807918285715e-12,1.1830536550405665e-12,2.3980817331903374e-13,},
{2950.7021044793445,2694.2521331852328,2303.7678056157504,2065.3668867617824,2004.9472799954647,1854.5864900892265,1277.4156371432172,981.07688437228416,939.57816862670802,879.31964482389826,521.81872146384184,349.70131038973154,323.66066712278163,306.79230253077433,167.72914052192507,88.908439478148129,82.032607853982601,79.5754845642406,42.843255036192292,18.229260723532197,15.066878880355512,14.072981558492295,6.5744850969725107,0.77178769585581372,0.30137327107329495,0.26969971189286143,0.063754049901460461,2.7231550348005833e-12,2.7604585284279885e-12,5.5955240441107875e-13,},
{3005.3041570253851,2743.0923850328913,2344.0369687930798,2101.0655154448359,2039.5837824985937,1886.585348058367,1301.6635441025069,1002.1038691427922,959.89827188635252,899.1720601330455,537.98518404909693,366.28330156558131,339.93124463613242,323.58991050342857,184.64927434432372,105.17945190776296,98.635712786584509,96.506299229420892,57.019460868681412,32.779536809473849,31.089171312531365,29.922885979544042,23.430202850376854,11.128347527883302,8.1610530152460338,7.6953229804937309,3.6751312076346785,0.27762634367865453,0.0087124335971798059,0,},
{3059.9051477353125,2791.9094737389238,2384.2570286257782,2136.7165260304368,2074.1743075724974,1918.5486070218299,1325.9099873222608,1022.9998616504441,980.07538696463489,918.85535346717395,553.83693134573557,382.17505774385404,355.44540393197096,339.50314022585905,199.4970634410825,117.4065207295359,110.6155261985166,108.42641137115906,66.019751057017294,39.072554377099601,36.195344649129022,34.607212623194278,23.819633002720227,8.119446528635202,5.1543917095638096,4.7975484657490729,1.8929182450424866,0.063415378967124749,4.3627323975670137e-12,8.792966355031237e-13,},
{3114.4990693931179,2840.487536981214,2423.5135078837886,2171.0543156559949,2107.4543536520043,1948.5953254090596,1345.3360874418741,1037.0470374717694,993.37734817635935,930.55943021926672,557.6272922787215,383.32484636671044,356.37669827305626,340.21818692102619,198.83979235566382,115.98502766352806,109.12807191835696,106.90849766933958,65.099421178038928,38.322205868302066,35.353551539491062,33.773418350475869,22.909539754701728,7.5279005467334374,4.7065343116953207,4.3750641513229511,1.6965810001426879,0.052151308727936303,2.3998580900297377e-12,4.7961634663806748e-13,},
{3169.0892418436002,2888.9454887235335,2462.306042728491,2204.7676877990751,2140.1117901316146,1977.737358444624,1362.4635992972482,1047.8205535042293,1003.4002667201982,938.51019859566531,556.3871419860664,379.11776885459007,352.11813363244372,335.70956213824546,194.33950631210852,112.50275306161271,105.79801752294673,103.63394366380861,63.303992346296485,37.637352512044149,34.783058129009372,33.237658894603431,22.613540151028808,7.4574510999841992,4.6671180638002502,4.3387450519601048,1.6836851521004439,0.051621404354243585,1.9575452370190757e-12,3.9968028886505628e-13,},
{3223.6781401367107,2937.3718247209355,2501.0078797249961,2238.3734943766798,2172.6630149825931,2006.7478535304807,1379.3361805091837,1058.2280462656428,1013.0648736696948,946.10694863914471,555.25935778904641,375.50766947212939,348.47948265188224,331.87534161011147,190.51210014895569,109.49037902554174,102.90175066193449,100.77929973557981,61.695452242649028,36.879420052727693,34.104010281845018,32.59165251870044,22.186878341291353,7.3152267849962089,4.5781544215230164,4.2560924213946319,1.6520802354222189,0.050729223930405238,5.5315751978923785e-12,1.1191048088221575e-12,},
{3278.2649426935757,2985.7370402111889,2539.4937686739955,2271.6981228106797,2204.9344982395542,2035.3668701072497,1395.278946437538,1067.3505891194543,1021.4525548495265,952.28358271267196,552.68984585432187,370.64372231317002,343.64260232179415,326.84524581454166,185.78644831102305,105.91350812694409,99.475623292914048,97.40604347008073,59.7142449210199,35.972587348416642,33.340726451953129,31.876078879934977,21.843723822052756,7.3162855035267644,4.6115860113166373,4.2898918862439882,1.6802503857550397,0.053422966922956013,5.5457860526075805e-12,1.1191048088221575e-12,},
{3332.8501505035146,3034.0590219688874,2577.8386135328246,2304.8448446495963,2237.0293456839167,2063.7468573063969,1410.6824271054733,1075.7550683329073,1029.1335195298978,957.70329892979703,549.71442219447572,365.74426810523287,338.80587608925066,321.86012873042278,181.34321491221796,102.6936416229106,96.406246756259261,94.390134034353324,57.977976827257755,35.177405377819295,32.664088347168164,31.240095398082961,21.519915205948358,7.2961354851924129,4.6243684826105954,4.3039090703342328,1.6976849230570373,0.057005092238036909,-3.9435121834685552e-13,-7.9936057773011253e-14,},
{3387.4337664781283,3082.3377872069642,2616.0418829506978,2337.8126356516014,2268.946477866448,2091.8858021117674,1425.5467654579379,1083.4632281472128,1036.1303711182428,962.39337224165319,546.39483136554976,360.84115881157984,333.99540881569445,316.93941624354042,177.16065259755452,99.780866551637262,93.64164856043003,91.678765377656442,56.447257415787538,34.47617286296515,32.061045256890821,30.671862468848292,21.213885648342057,7.2587237121989631,4.6199276461710784,4.3013952494793327,1.7059519615701363,0.058429846716551569,1.9646506643766767e-12,3.9968028886505628e-13,},
{3442.0157991104942,3130.5735554238327,2654.1039321890796,2370.601682700212,2300.686030001348,2119.7835786928272,1439.8779749081302,1090.5022626766649,1042.4703631277213,966.38823126947453,542.79794127464142,355.97468364435455,329.24642275978636,312.11362849968449,173.23572655327015,97.147971936779079,91.152896040414688,89.242398590529779,55.100718817431606,33.85903984530546,31.523953583606254,30.164344326148762,20.923302731128473,7.2045344901780999,4.5987187527778171,4.2827734884403266,1.7050132851759606,0.059374163241418845,-7.3718808835110378e-13,-1.5987211554602251e-13,},
{3496.596246323223,3178.7661670226057,2692.0235308230496,2403.2099643344437,2332.2459360776759,2147.4368657866141,1453.6749125764046,1096.8864918532061,1048.1672841628576,969.70885198411686,538.96404985142398,351.15468945264727,324.56457491248896,307.38339838585903,169.54000241696436,94.751645378499739,88.896096801589386,87.036885127112559,53.90630945836725,33.310702746696763,31.041247626020719,29.707003435700101,20.646736934066015,7.1377789565464149,4.564617671411383,4.2517483754914391,1.6969613212052607,0.059694796017196084,-1.5774048733874221e-12,-3.1974423109204501e-13,},
{3551.1751166608215,3226.9158436271966,2729.8010700554284,2435.6376856413405,2363.6263591028122,2174.8456903049572,1466.9454176369931,1102.6397269486231,1053.2441996560602,972.38925262932062,534.94716798817085,346.41047250524046,319.97540756627205,302.77120285411815,166.07211386998145,92.575378714070686,86.853926191851885,85.044672300914238,52.852016847986151,32.825067253170858,30.607885780927935,29.295131235767904,20.38193957074336,7.0581897351536478,4.5175201063260058,4.2082237035378839,1.6816816631287813,0.059397611152227217,1.6271428648906291e-12,3.1974423109204501e-13,},
{3605.7524077107489,3275.0224146833191,2767.4353135453331,2467.8828084221425,2394.8252276973241,2202.0068579448864,1479.6900678154189,1107.7734807081234,1057.7119305402524,974.45125522872988,530.77760297631272,341.74534104333986,315.47922561639597,298.27382836108885,162.80818011382182,90.58718953427532,84.994410412998412,83.233772908042397,51.91489009716244,32.390704060306757,30.215037020025213,28.920640977622242,20.127474327857865,6.968866510587515,4.4604130348691203,4.1550626415680618,1.660787112241479,0.05879221357794513,2.4655832930875469e-12,4.7961634663806748e-13,},
{3660.3281262788101,3323.0860390781988,2804.9264132536569,2499.945200674286,2425.8423792513497,2228.9200166049391,1491.916664193728,1112.3072608373223,1061.5896216107679,975.92763139785763,526.49601504022437,337.17769919436622,311.09172939939565,293.90478147609805,159.74419589893972,88.774044815924456,83.304266638869508,81.590882776942892,51.085931447324836,32.002711241552577,29.858579342821707,28.579674361383297,19.881554660544124,6.8698998157627988,4.3935510239028938,4.0925186262230263,1.6344460698991337,0.057698974140881089,8.6757268036308205e-12,1.7585932710062474e-12,},
{3714.9022698857814,3371.1065437362325,2842.2731520250074,2531.8228577298207,2456.6757874863161,2255.5821405880046,1503.626917473906,1116.2512802065716,1064.8875901314477,976.84166571137889,522.12435328785325,332.70624165125996,306.80949986007773,289.65805726825784,156.85910380823612,87.110999705024682,81.758859694521453,80.091460397085126,50.347490400959742,31.652081754151732,29.531454607516719,28.265746416969349,19.642851106813052,6.7637027175990456,4.3193218880327028,4.0228859294848291,1.6039843230213354,0.056283978154643732,5.478284492710371e-12,1.1191048088221575e-12,},
{3769.4748449142978,3419.0840727328462,2879.4756558863446,2563.5156325071417,2487.3252866585731,2281.9929777165086,1514.8294478255225,1119.6247637404713,1067.6257108884707,977.22765817529049,517.69622355877771,328.34650292253744,302.64616836871621,285.54594765450526,154.15262715379794,85.591834525579847,80.351915870253734,78.729301221306415,49.695711942475246,31.336299474575277,29.231327763886054,27.976621961244983,19.409737788452107,6.6497014547302469,4.2373944451001593,3.9458605825958987,1.5693375286625777,0.054785574819519249,6.6897598571813418e-12,1.2789769243681801e-12,},
{3824.0489464251359,3467.1296417867736,2917.0013464773488,2595.6677518377657,2518.4342446443064,2309.1004183987865,1527.8525946072826,1125.6222883799489,1073.0070556909132,980.80904469128938,518.71681413727216,330.77705372660828,305.22590153418628,288.51261567457013,158.49492390188537,89.59875411352934,84.297027580015057,82.709884211631727,52.945491803068732,32.423993484539387,29.805951062744607,28.439697102760948,18.712746345936919,5.5717149388235233,3.3345290883092308,3.0882163482322606,1.1384629410314247,0.02717664465371771,3.9435121834685553e-12,7.9936057773011257e-13,},
{3878.6245687496352,3515.2426730224441,2954.8501912876873,2628.2835857251034,2550.0075523633807,2336.9340592811971,1542.8802661776766,1134.4848718571892,1081.2698064952948,987.82587821822209,524.69657344637025,337.95424645019404,312.28982651636169,295.76578239115368,164.20674464886909,93.071476544559068,87.591099156432083,85.98365794590155,54.521981120349641,31.690089591792208,28.720945740707879,27.330061080129419,17.245335885976258,4.7308692007270014,2.7819015196592384,2.5753042382437068,0.96886167957843946,0.034147947538795169,6.8567374000849653e-13,1.5987211554602251e-13,},
{3933.1990770747217,3563.3289004186327,2992.624950439831,2660.8144158944281,2581.4971062077636,2364.6804719734335,1557.8742211647518,1143.4048556997282,1089.5995061772073,995.01101689423189,530.74320434728927,344.25435734436958,318.34186923245511,301.71620745823784,167.31616309618281,93.959584083483456,88.297129441462989,86.610775964541373,53.892640278340175,30.081297013349697,26.994502711834278,25.636250333119105,15.61803583765734,3.8372833085483866,2.1191903380140926,1.9497453068526698,0.66050145458264963,0.0087873665620571006,8.6757268036308205e-12,1.7585932710062474e-12,},
{3987.7725634028164,3611.3914988354759,3030.3379527994632,2693.2765672783548,2612.9191729625352,2392.3615174825547,1572.8702417203632,1152.4257324346848,1098.0403891235101,1002.4138833919262,536.88638259653488,349.87601146653452,323.61809161623401,306.69318207976331,168.8694473422351,93.549946081556985,87.716881083904234,85.935052838675838,52.505684062072914,28.475756492078166,25.379396253674358,24.068894441722011,14.317551893896278,3.2928377526382667,1.7626651365582731,1.6173583174657655,0.5277650328355,0.0054543435323531649,2.3661073100811329e-12,4.7961634663806748e-13,},
{4042.3434488514661,3659.3732417293952,3067.7487983284458,2725.3415945212367,2643.9461258631487,2419.5087242134835,1586.7925320780149,1160.0814754306612,1105.123350644016,1008.3190386919127,540.20602492018019,350.68980613596656,323.94114052207306,306.19071381912379,163.91343546759077,87.768526556203537,81.883410498056634,80.021970878100537,47.933371673542579,25.864322294319251,23.11352614348628,21.935515576796046,13.267180675982712,3.2596802350783997,1.8097656865834914,1.6658729660636596,0.56719157711758806,0.0074878518344529246,8.643752380521616e-12,1.7585932710062474e-12,},
{4096.9133245020566,3707.3317883504901,3105.1000067168212,2757.34099651113,2674.9086803226851,2446.593344395534,1600.7035705179665,1167.8172423570299,1112.2983090427209,1014.4109410879841,543.47475681626457,350.89552397979359,323.61359905642077,304.95617526329152,158.32188548876152,81.671752192023937,75.784898029978354,73.87509359345174,43.281224691104116,22.910025286378912,20.436223213711493,19.392651678262251,11.815405427220626,3.0783741588773067,1.7754403071125362,1.6399736472446757,0.58626661918688476,0.010674199137895355,5.520917056855977e-12,1.1191048088221575e-12,},
{4151.4823367079037,3755.27234210252,3142.4130068708003,2789.303967816354,2705.8359805995198,2473.6568863622329,1614.6949218547117,1175.7581451947058,1119.6913348992025,1020.8287432666515,546.88352340756388,350.86624227452951,323.02787549671669,303.44294823729027,152.78465984380418,75.918520915906671,70.06581965171845,68.131394423717134,38.946065434811528,19.705241669958788,17.338975369012117,16.40975576894481,9.6451577302500474,2.4058642420784985,1.3891058801331872,1.2839802011985699,0.46633462169900699,0.0082191758097370363,3.1548097467748441e-12,6.3948846218409003e-13,},
{4206.0511492898179,3803.2186297111602,3179.7857493621734,2821.3638716166698,2736.8610788584578,2500.8898719476846,1629.2021322548847,1184.4980366779417,1127.8982610586241,1028.2575903253394,551.54756245928801,352.2970975305634,323.91774353543408,303.56406808954678,149.78723067296245,72.867799313132754,67.066823235957177,65.136667106303302,36.766112268543574,18.053741549792036,15.711969004679833,14.835203350272316,8.3705103661532376,1.8541452799596254,1.0128796768362675,0.93180026783824819,0.31728605007121599,0.0033696260200160246,1.5774048733874221e-12,3.1974423109204501e-13,},
{4260.6188809062015,3851.1387673154823,3217.0849228717343,2853.3388636783759,2767.8026024831104,2528.0323672820206,1643.6258055311025,1193.2231724342136,1136.1035526813894,1035.7376515326324,555.84978731163437,352.92704198711969,323.99556860381565,302.84655287032423,146.38518912830876,69.830681784075137,64.12333137208196,62.216043550002813,34.730119742083918,16.559496719653851,14.254425277989255,13.428178906145033,7.2873730333555234,1.44022035289469,0.74533617430782168,0.68255715260270431,0.21889427920730152,3.6841640849161186e-12,1.5774048733874221e-12,3.1974423109204501e-13,},
{4315.1882495752767,3899.13034863091,3254.7153130812067,2885.7801136872226,2799.2103273696809,2555.8707046809994,1659.7675645733351,1204.3846067758582,1146.7642495458165,1046.1184684949329,564.52623059511196,359.60011660906831,330.21103190601268,308.8436258055056,151.35891034071776,74.365490124840494,68.646233114810244,66.770303221902675,38.478365231240159,20.124715847939062,17.914234112546282,16.990927024765816,10.216877948580703,2.5069831844885837,1.3947061168695426,1.2840325085480666,0.43794756134418457,0.0053610630043087333,4.2170711367361937e-12,7.9936057773011257e-13,},
{4369.7571975696089,3947.119662980087,3292.3721656065731,2918.272518947182,2830.6701755547925,2583.8097437036928,1676.2505803683587,1216.108697719697,1158.0014196384481,1057.1974271770138,573.89060659507778,367.02218203563178,337.1819225304445,315.66611899330647,156.93357003956871,78.781560331484833,72.954638395871767,71.066431486148695,41.450135553171078,21.495310404470695,18.918182735660118,17.890268116460419,10.099572721226906,1.9946146139410355,0.99465954670182864,0.90733890223827631,0.27492347350590783,-6.5369931689929189e-13,-2.3661073100811329e-12,-4.7961634663806748e-13,},
{4424.3269211145597,3995.1479873745087,3330.2214935556662,2951.0410721612401,2862.4065840228667,2612.1721976222034,1693.8199720599638,1229.408240051994,1170.829793813382,1070.1448570045088,585.85612217026777,377.92268212650468,347.68652630467258,326.36204614202502,167.5010366204853,88.212053202883207,82.329241341250054,80.486575945919818,48.218758762158179,26.071174310906013,23.470274597646941,22.330295781665127,14.635372253050646,5.0568993068523781,3.3508185564702943,3.1332237507323309,1.3325239175055714,0.063780798670517128,-1.4210854715202001e-14,0,},
{4478.8957629750618,4043.1573242461621,3368.0296834578633,2983.76908278302,2894.1036536390841,2640.5020866067818,1711.4150982157963,1242.8393167738269,1183.8005670967881,1083.2567147580031,597.6041787793337,388.30986664174431,357.66113087444273,336.44474324318008,176.21661280199017,94.601062351620038,88.448458639539194,86.501966503937196,51.356715795161831,26.765390132405508,23.778255787358853,22.553486968008113,13.763802678331596,3.680181572812007,2.1497686590209481,1.987815030982864,0.72048473873234503,0.014756062440111283,4.7322146201622658e-12,9.5923269327613497e-13,},
{4533.4638243778526,4091.1511823233867,3405.8105769161536,3016.4751290131308,2925.7799121821248,2668.8254248938669,1729.0943253492267,1256.4792968907533,1196.990010085176,1096.6084936977031,609.26180571428593,398.3767605432743,367.29985826309917,346.1160051899899,183.58578921831968,99.054093305952512,92.505485898663056,90.359264421909538,52.402821905775728,25.931433109766777,22.653942030930475,21.408383385598291,12.180606713883485,2.6144717677581787,1.3747614693668144,1.259896489922873,0.40567310312202182,0.0033753821362173059,5.520917056855977e-12,1.1191048088221575e-12,},
{4588.0311161802647,4139.1298751700007,3443.5651545381283,3049.1603999707954,2957.436542565475,2697.143327533913,1746.8589369246863,1270.327228925069,1210.3956793425313,1110.184640094181,620.81112912047704,408.10868881135573,376.58475956882267,355.34661570655802,189.75605473466325,101.92418051236675,94.877568805962633,92.470563556845325,52.113191219375341,24.472640102674387,21.023890639461267,19.796969430148587,10.570634384757792,1.8683529894427277,0.89434340310031081,0.81330889487196981,0.23743137138065287,4.7144510517682637e-12,3.9435121834685553e-12,7.9936057773011257e-13,},
{4642.5976369081848,4187.0932825847821,3481.2926840213452,3081.8237791279817,2989.0724253017078,2725.453582505909,1764.7025057039416,1284.3705024922156,1224.0032456503876,1123.9564866829608,632.21621317872608,417.46151656328204,385.46715100106005,364.07633682706808,194.80736633373659,103.40591801999025,95.808610609961445,93.12425143157246,50.980067691940112,22.780023391143732,19.252162555575063,18.066602660010122,9.1047216780609295,1.3487254789224466,0.59184161089684123,0.5344781055802646,0.14261878915412854,6.9704242378065815e-12,7.0983219302433995e-12,1.4388490399142026e-12,},
{4697.163380278676,4235.0411178822114,3518.991803951728,3114.463319128059,3020.6856104168497,2753.7528166097574,1782.6162737413587,1298.5924726289575,1237.7942106066464,1137.8917013802363,643.43912158123488,426.38516382795563,393.89219932268721,372.24239213022233,198.79504000613707,103.67973048664624,95.541006240245887,92.600151207798518,49.332976245736901,21.036023200386097,17.496189835787929,16.364887997131897,7.8196861170707068,0.98341152491044097,0.39747104975782946,0.35664197257564544,0.087132451394446337,-1.5347723092418161e-12,-1.5774048733874221e-12,-3.1974423109204501e-13,},
{4751.7321653684674,4283.108730819948,3557.2100221052869,3147.8206968862,3053.0158203176095,2783.1021590031509,1803.0436629115878,1316.3058326751917,1255.0873866520232,1155.8464099817552,660.84468431382375,443.86574371663285,410.97805468045584,389.81802469136911,216.13501297326906,120.43541210131351,112.62799390421934,110.03546004386447,63.823403143347112,34.712590778475848,32.580564436088123,31.328225910517276,24.56967557518371,11.981428644505972,8.8920925186383965,8.3936233266952257,4.0725316272922963,0.32444451779679275,0.011215972519256073,-1.5987211554602251e-13,},
{4806.3001527238732,4331.1600275603744,3595.3947194722923,3181.1464584978723,3085.3155167319078,2812.4272281284967,1823.5037401699218,1334.1309590467957,1272.4926115702041,1173.8614359485505,677.90094667697023,460.63220528915844,427.30635002328879,406.50207692507272,231.65935708344548,133.69799170738316,125.70626042551595,123.0920369420344,73.237623191383537,41.782353523195396,38.69796427768987,37.013874189271966,25.789552453513928,9.1683803863473191,5.9296579592148815,5.5279099876918101,2.2292246519939618,0.083079011285142117,1.6271428648906291e-12,3.1974423109204501e-13,},
{4860.8635124382859,4379.0568985946006,3632.9623256351902,3213.6363581865979,3116.781550254971,2840.5489599803731,1841.2513172589096,1348.3845648040171,1286.320138716158,1187.6518678533843,687.51033285589923,466.90736328767033,433.05735861271648,411.84584511817896,233.79683762523358,133.59972556997448,125.34518329571615,122.61057351382715,72.591277458809799,41.066217622925705,37.815580312389274,36.125894983733151,24.668076503655252,8.3477304279624369,5.2893301361015578,4.9223477278667845,1.9378390910205183,0.064444070393629651,2.4584778657299459e-12,4.7961634663806748e-13,},
{4915.4233069225276,4426.8374528238078,3670.0699222876472,3245.502709649086,3147.625531747415,2867.767916395202,1856.9975197240326,1360.0375354321177,1297.541809181939,1198.346205263812,691.66204694460572,465.86187572843516,431.5143189439336,409.56213044480203,228.94441418910719,128.73175423917185,120.56205189564253,117.85591578022312,69.658444155684791,39.879968599929158,36.887215452484219,35.268529755551183,24.373100280965976,8.4585862985840788,5.4156424092868798,5.0444536513567406,2.0110701177070682,0.071196720809518558,6.2492233610100797e-12,1.2789769243681801e-12,},
{4969.9815612566744,4474.5742634721038,3707.0253361176644,3277.1728627898071,3178.2745421880276,2894.7207455509885,1872.2475478821058,1371.0857282687271,1308.1529542290803,1208.2489346716136,694.26503698877002,462.99585824603843,428.19839801012479,405.4766061578235,222.41347908129469,122.37642241761838,114.2963017015746,111.61257001121661,65.526093077473221,37.759517020131347,35.147496926962195,33.652531512476845,23.823821070204115,8.7863844388091448,5.780336176613404,5.397185942077337,2.2276421206501397,0.092620309833237241,8.0540019098407339e-12,1.5987211554602251e-12,},
{5024.5386796561154,4522.2818450411748,3743.8888845999349,3308.7287900417454,3208.8103157935934,2921.5245593056959,1887.2734219140436,1381.8865985670143,1318.5098342769382,1217.7721159833678,696.05957007498638,459.39640782296671,424.21189783437085,400.78860801909994,215.88632963545322,116.42825169626723,108.47436956206912,105.82771513667628,61.74421666819797,35.746173487433899,33.466381505197426,32.085759579635488,23.25369603509127,9.0966142200061915,6.1426426973537518,5.748951406397813,2.4555102896880449,0.11976135575385254,2.835065515682799e-12,4.7961634663806748e-13,},
{5079.0946698329009,4569.9603888842884,3780.6611458443457,3340.1711858406732,3239.2335246241187,2948.1804797756774,1902.0802609728111,1392.435416190371,1328.6058984241023,1226.9073370443642,697.08897505212496,455.16455025122753,419.65660285188671,395.60250273027286,209.42175154100899,110.86680769165331,103.06411133709992,100.46415897834226,58.26560160838001,33.817556653410412,31.826595141463275,30.552215415672591,22.654585748171439,9.3855009361128856,6.4996048800656225,6.0969827030738633,2.6942563390236811,0.15125276315425656,1.0064837852041816e-11,1.9184653865522699e-12,},
{5133.6495366629885,4617.6099889532963,3817.3423128918277,3371.5002174562502,3269.5443142524423,2974.688923772258,1916.6710394620815,1402.7241807454189,1338.4315080411551,1235.6443716350207,697.39333956901024,450.3884176300538,414.62011298457046,390.00635242537197,203.05938995530661,105.66312529062128,98.02758217978964,95.480179233998619,55.047272596289905,31.953118838607514,30.211503120476254,29.036358532025729,22.017832628855975,9.649212463682042,6.8483811353404655,6.4386366780521642,2.9437115882506596,0.19055466611636186,0.0017679205179678952,1.2789769243681801e-12,},
{5188.2032873339562,4665.2308250855917,3853.9329501789143,3402.716557693693,3299.7433347729504,3001.0510925667559,1931.0499605140431,1412.7463486064234,1347.9786992056203,1243.9765825729129,697.0177048193671,445.15521063778659,409.18816156914371,384.08551910989928,196.83705718070503,100.79650601353161,93.337321046635906,90.845584899074083,52.060138986550929,30.141260288098629,28.611550307631938,27.52916480644782,21.336440934869226,9.8818310706992805,7.1838865145593403,6.7690989562778113,3.2024071604845654,0.23546811571565968,0.0063014069422681271,2.5579538487363601e-12,},
{5242.755924529052,4712.8229170856487,3890.4329511271569,3433.8199477119384,3329.8303060111508,3027.2668632948558,1945.2174946760192,1422.4903157560831,1357.2346732199243,1251.8931489683118,695.99831642248827,439.53281822085752,403.4263483678476,377.90335282756029,190.7684408278431,96.231294948115821,88.952528632127795,86.517482989051742,49.268303791895522,28.36285230156445,27.009412504197055,26.014120570365319,20.599042491468107,10.078258027072868,7.5026242525391964,7.0851418268386161,3.4704308182677417,0.2897551586598172,0.010355823582461669,1.5987211554602251e-12,},
{5297.3074522254707,4760.3863347991554,3926.8424413080453,3464.8104529649389,3359.805273116473,3053.3366569746463,1959.1749838021662,1431.9460357296087,1366.1884656668472,1259.3867383787777,694.37591796657411,433.58957124311333,397.40029462747057,371.52315298574218,184.8713430051001,91.944827681132478,84.84682567972181,82.46805760627569,46.649847289966652,26.60853340651264,25.395687014098055,24.481999689879937,19.795574137057877,10.229647944179867,7.7971395485526637,7.3797079484998545,3.7455644431752252,0.35526649240116067,0.01658661808591107,1.9184653865522699e-12,},
{5351.8578742359153,4807.921142682837,3963.1615153181735,3495.6880845517952,3389.6682275241493,3079.2608379951095,1972.9229608392833,1441.1027325133366,1374.8286495219854,1266.4504827211194,692.18938862282665,427.38511782644019,391.16649133685546,364.99828283922757,179.15457901021006,87.912024759813337,80.99232657742029,78.668337518273985,44.183017263031074,24.867303605112487,23.758388588712222,22.92090502820438,18.912574152798694,10.325072772101935,8.0584039972311621,7.64425848384624,4.0251787094757085,0.43444438168822885,0.023916062179688351,1.5987211554602251e-13,},
{5406.4071929214466,4855.4273554053921,3999.3900697139377,3526.452583263281,3419.4188927929581,3105.0394295292693,1986.4607256660888,1449.9486740909373,1383.1431317267438,1273.0775807388272,689.47563865039758,420.97160356975764,384.77370423504823,358.37395914132938,173.62173169962582,84.108918881949561,77.363023140202518,75.091524013109941,41.848538642129225,23.12896341267661,22.084966361784866,21.318082201975882,17.932734434098079,10.349140382940627,8.2733655108025894,7.8664018513672804,4.3047500291519473,0.53053301731647195,0.032566906978025237,2.5579538487363601e-12,},
{5460.9554102621385,4902.904975486296,4035.52795341821,3557.1036234101729,3449.0569281570391,3130.6723970334881,1999.7869589424185,1458.4721193380776,1391.1201011199721,1279.262122112123,686.27058918942397,414.39527629128039,378.26464711543422,351.68906362397331,168.27290864580701,80.513080077032346,73.93497531962128,71.713078632672779,39.629181480845278,21.384116808084923,20.362010978005961,19.659502606205784,16.832871507687365,10.279091599822507,8.4220705756080822,8.0271081813347609,4.576036462679239,0.64735683475969672,0.046508090062307374,-1.5987211554602251e-13,},
{5515.5069343258521,4950.5119364726265,4072.2355698425156,3588.546875811425,3479.4864066059383,3157.4751888291958,2015.9332347840498,1470.7630620737824,1402.8594914421087,1289.7976807304443,690.5043726366093,418.24393675696707,382.2430534490919,356.23320482302556,176.12193787499329,89.847528647639681,83.469533604022194,81.384726158732577,48.014601974866533,29.771089524281357,28.450327026436924,27.38288349814746,21.031201483655828,9.3203702810243277,6.6361827986163937,6.2410098319031725,2.8671039684800286,0.1891926791503833,0.0017782999926176274,-1.5987211554602251e-13,},
{5570.0602785942515,4998.1954475586047,4109.2959520781261,3620.4870116629349,3510.4126854113731,3185.0224107126728,2033.8977190353556,1485.4456799819465,1416.9820999332183,1303.080879258106,699.41854407437497,428.37517558376224,392.47499343532031,367.33096150153049,189.93862219816977,102.68753806716812,96.074291727967168,93.958184622673093,57.9820354548546,35.239703891930586,32.541542533251857,31.082572226584295,20.893178626343361,6.6169871484758097,4.0675247903749451,3.7755898445420551,1.4350620648574078,0.040062813721977208,-7.8870243669371103e-13,-1.5987211554602251e-13,},
{5624.6115363509815,5045.8148247011994,4146.1231270807899,3652.1252148755111,3541.0387914684435,3212.1644810611818,2051.0216948483836,1498.9083028935872,1429.8680771231914,1314.8932161868909,706.00267212724139,434.95637019010119,399.00489826230505,374.16187261567899,195.92012204218583,106.28771616213698,99.380060724435582,97.186254708499189,59.585750503705619,34.433740755132779,31.333077137051883,29.845154626444192,19.195656541366329,5.4670020570740427,3.2162611285151524,2.9745173210929944,1.0773379349825563,0.023729397578285915,3.1548097467748441e-12,6.3948846218409003e-13,},
{5679.161566681226,5093.4008677104154,4182.8437380000594,3683.6325918557682,3571.5352947289055,3239.1442744739616,2067.8601957331803,1511.9035850162927,1442.2733375314526,1326.1245155655907,711.74155029517216,440.12192788722292,404.02359633651944,379.19609909494868,198.62194851967275,106.5461286735354,99.387943922327578,97.093952436906527,58.509943854399369,32.612403983710339,29.453806009168593,28.016466871636251,17.634583385256192,4.7719048183717505,2.7489213220050738,2.5378204924370047,0.89720784389940694,0.016407668618724481,-3.0198066269804251e-12,-6.3948846218409003e-13,},
{5733.7095094727098,5140.922449992678,4219.3290557674709,3714.8346314914222,3601.7281649879483,3265.7124091806531,2083.8336723998033,1523.6415385201048,1453.4071970037668,1335.8582434034748,715.10987815132691,441.65134487081698,405.27280324530198,379.97235392685867,195.1115866086455,100.8542495306644,93.506159540103194,91.083397228419568,53.235047014468732,28.905265639556362,26.095066669101681,24.827945550595275,15.827542176483862,4.5791423388736676,2.7446814695287028,2.5430856147568345,0.94619629240122671,0.023081143024304443,7.9083406490099136e-12,1.5987211554602251e-12,},
{5788.2567523573222,5188.4297258970876,4255.7864997582997,3746.0116702132636,3631.8968732915437,3292.2672085081924,2099.8521535892002,1535.3568245606619,1464.5089974777436,1345.545895497018,718.50229780462111,442.98523019371756,406.27516295537461,380.40949375333601,191.01093831037438,94.672314403268467,87.136927468460063,84.589005087388405,47.761903114587577,24.681109133586699,22.037306669558372,20.926098878982892,13.069038707030615,3.8271043462382415,2.3594251558430276,2.1927757524274809,0.8570035709392304,0.026993982412331973,2.3128166048991254e-12,4.7961634663806748e-13,},
{5842.8041740399585,5235.9541889347836,4292.3455316068515,3777.3390279746413,3662.2162498502395,3319.0589972884691,2116.4866787536107,1547.8250616045038,1476.3580121668996,1356.1009532664066,723.41948319194825,446.27179386301142,409.22786454600519,382.94061229065401,189.80144696553944,91.736335491575326,84.067068597756358,81.443887198464928,45.050843438730646,22.341161102064193,19.666716965916067,18.618152620932796,11.018497025653375,2.801521641096781,1.6298080781900217,1.507400661419181,0.55207275749350279,0.011443836079991566,1.5774048733874221e-12,3.1974423109204501e-13,},
{5897.3510438379211,5283.469398393297,4328.8967863893264,3808.6684801970323,3692.5384921660038,3345.8762075500081,2133.2446797003517,1560.3777353715474,1488.2856323845199,1366.7462073615949,728.55905096251929,449.63461544991062,412.2235885334783,385.47590254893613,188.70131659497999,89.300436008555703,81.562202068449402,78.899110629598102,42.996474637771843,20.64678035265068,17.965072728343168,16.964976872553038,9.6072383393673916,2.1472295499298177,1.1763353974152581,1.0824035296894213,0.36956002626218428,0.0039613021192700785,-1.5774048733874221e-12,-3.1974423109204501e-13,},
{5951.8971564365221,5330.967913250058,4365.4095306701784,3839.9582572740357,3722.8219431619435,3372.6589367303379,2149.9826779015461,1572.821822918127,1500.0999624782885,1377.2599671801145,733.54007234576189,452.53448473289284,414.72045770168891,387.43328182709991,187.01670489292862,86.665393500346584,78.914866545094937,76.237475480831725,41.002079705083335,19.091255031132223,16.422864435520067,15.471300239324043,8.4060320050621977,1.6629278760420078,0.85982178629694552,0.78732228677958106,0.25213856216429638,0.0009199448538278965,8.6757268036308205e-12,1.7585932710062474e-12,},
{6006.4425048270264,5378.4494292167485,4401.8824571404862,3871.2064742651378,3753.0647217303638,3399.4042581122176,2166.6887293893496,1585.1441786111912,1511.7893782632842,1387.6301226991525,738.32980003278291,454.93965843380087,416.69335769388078,388.79776339948692,184.82156283613962,83.911289838001174,76.199238856286367,73.529720208464292,39.085348309897704,17.661411363392188,15.022695150463894,14.119207670887692,7.3772909040851593,1.2991633473053761,0.63511700061583638,0.57887199811734467,0.17451521137640687,4.2099657093785927e-12,3.9435121834685553e-12,7.9936057773011257e-13,},
{6060.9897331589398,5426.008758945111,4438.7047421210674,3902.9399517478944,3783.7921676879118,3426.8642410585861,2185.0889277260673,1599.6936715879729,1525.7102410926451,1400.604864154172,747.45819238336622,463.36334946217636,424.77411272253754,396.83301318062845,191.50902718313724,89.960727352862493,82.250758861771999,79.62418091892993,43.974712598535827,22.458423034932612,20.080253878959519,19.07324197362297,11.846154489087774,3.1969986176904524,1.8542621544096578,1.713087272584608,0.61190878282407585,0.010908744225971228,7.0983219302433995e-12,1.4388490399142026e-12,},
{6115.5366092621087,5473.5661163262412,4475.5491366166317,3934.7147457239477,3814.5615192319771,3454.4033822569159,2203.7112752703122,1614.472530131906,1539.8606132459749,1413.8481635845482,757.03459382758456,472.22932550843241,433.28434914884563,405.30302974979367,198.35542731084492,95.417878253587905,87.572505108399298,84.924526206209847,47.711076257878951,24.446578606767298,21.6516531769007,20.509359827211506,11.950511116367713,2.5859957113132478,1.344567124628527,1.2307169198927307,0.38913585882116191,0.0019500817990128917,0,0,},
{6170.0841742027565,5521.1575958825248,4512.5618242926688,3966.7293803888153,3845.5708271769105,3482.3066201182417,2223.2100820576718,1630.3744767866599,1555.1371459400699,1428.4029629876037,768.76580232921148,483.93688815819593,444.65728662029721,416.87129299853327,209.33493622900695,105.3032782880443,97.417011962051182,94.829486092310944,54.92620575750461,29.01438152233839,26.039487741043938,24.760131125318977,16.085274533156065,5.5086978531947446,3.6541138358275811,3.4174050104242179,1.4574587933937025,0.070511929667115469,2.4158453015843399e-12,4.7961634663806748e-13,},
{6224.6310474294108,5568.7348234535833,4549.5466860516397,3998.7172316966943,3876.5541112576174,3510.190838421112,2242.6933804882656,1646.1908381931967,1570.3287180758661,1442.8571905945973,780.29910547598722,495.16275583155799,455.51724828497423,427.83693017958142,218.77802565233339,112.4795315680741,104.33986613787759,101.67700910687097,58.805755486926868,30.091566246971048,26.689482299980451,25.311349530558177,15.483676265467105,4.2245764273241117,2.4959729222277349,2.3102218816235273,0.84872580846410831,0.018833600388078948,2.3163693185779259e-12,4.7961634663806748e-13,},
{6279.1773252295982,5616.3011540759679,4586.5170909522721,4030.6963281314905,3907.5293620748658,3538.0817339661145,2262.2158805124044,1662.0006527408498,1585.5148061157231,1457.3025438591448,791.77505356408282,506.10624231243128,466.06518947901739,438.41898612828923,227.09080619222637,117.89621126905213,109.40654274972993,106.58679467467114,60.654956223459511,29.606568434187974,25.869343893192696,24.454649125203397,14.054923149178719,3.1369302373055425,1.6814959956093114,1.5434706443078607,0.50731738123597161,0.0054661190773216934,4.7322146201622658e-12,9.5923269327613497e-13,},
{6333.7230280140983,5663.8572631339718,4623.4755652507596,4062.6699920145657,3938.499901317313,3565.9838992333429,2281.7838347814561,1677.8168519710423,1600.7083126683082,1471.7533770914362,803.20723627871537,516.78579210752486,476.31911441595246,448.63701353838931,234.39058371699755,121.91691751730698,112.99289580937611,109.94353803986554,61.10547599420228,28.399493979365131,24.44751812443364,23.037519616322382,12.501411059190018,2.3333925094792601,1.1468994097519438,1.0452211232532014,0.31364238821900905,0.0008745328786668282,1.5774048733874221e-12,3.1974423109204501e-13,},
{6388.2681604426072,5711.4032724847927,4660.4224108658981,4094.6385369994904,3969.4660498322805,3593.8975987484591,2301.3938052362687,1693.6388036514725,1615.9082803762843,1486.2082743501782,814.58410733797624,527.18415380783389,486.2615205989147,458.47201804540721,240.74093173359742,124.7162914357368,115.27492338565169,111.94266059897681,60.585112922187122,26.868360613744252,22.798041845993536,21.41799514323168,11.026259417722637,1.7489644863130811,0.7936487050220511,0.71863334497097618,0.19869144667859028,-2.1600499167107039e-12,-2.3661073100811329e-12,-4.7961634663806748e-13,},
{6442.8127225591933,5758.9391436096425,4697.35729366101,4126.6014238019223,4000.4272778266664,3621.8218629694202,2321.0398157095448,1709.4619149486382,1631.1095772519961,1500.6614201764428,825.88764026611862,537.27534682175668,495.86661985319992,467.89596315676849,246.18860884711827,126.40228991285021,116.38283681967462,112.74488891513578,59.403389515524312,25.213490591001603,21.09616064410535,19.761374637038132,9.6899868944434835,1.3219764931403982,0.55646309351689217,0.50088055698975077,0.12849477435703923,8.501643833369596e-12,8.6757268036308205e-12,1.7585932710062474e-12,},
};
