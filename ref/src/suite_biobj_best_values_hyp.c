/**
 * @file suite_biobj_best_values_hyp.c
 *
 * @brief The best known hypervolume values for the bi-objective suite problems (only bbob-biobj and
 * bbob-biobj-ext problems are included at this time).
 *
 * @note For now, the hypervolume reference values for the bbob-biobj-ext problems not in the
 * bbob-biobj suite are 1.0 as well as for the new instances larger than 10 (as of 2017/01/20).
 *
 * @note Because this file is used for automatically retrieving the existing best hypervolume values for
 * pre-processing purposes, its formatting should not be altered. This means that there must be exactly one
 * string per line, the first string appearing on the next line after "static const char..." (no comments 
 * allowed in between). Nothing should be placed on the last line (line with };).
 */
static const char *suite_biobj_best_values_hyp[] = { /* Best values on 29.01.2017 16:30:00, copied from: best values current data, 10.07.2016 */
  "bbob-biobj_f01_i01_d02 0.833332923849452",
  "bbob-biobj_f01_i01_d03 0.833332590193468",
  "bbob-biobj_f01_i01_d05 0.833332871970114",
  "bbob-biobj_f01_i01_d10 0.833332983507963",
  "bbob-biobj_f01_i01_d20 0.833332656879612",
  "bbob-biobj_f01_i01_d40 0.833314650345829",
  "bbob-biobj_f01_i02_d02 0.833332931307885",
  "bbob-biobj_f01_i02_d03 0.833332733855334",
  "bbob-biobj_f01_i02_d05 0.833332480608307",
  "bbob-biobj_f01_i02_d10 0.833332975206005",
  "bbob-biobj_f01_i02_d20 0.833333117544167",
  "bbob-biobj_f01_i02_d40 0.833314493712438",
  "bbob-biobj_f01_i03_d02 0.833332922354197",
  "bbob-biobj_f01_i03_d03 0.833332806949774",
  "bbob-biobj_f01_i03_d05 0.833332842547238",
  "bbob-biobj_f01_i03_d10 0.833332977573570",
  "bbob-biobj_f01_i03_d20 0.833333116146967",
  "bbob-biobj_f01_i03_d40 0.833314058645234",
  "bbob-biobj_f01_i04_d02 0.833332867309178",
  "bbob-biobj_f01_i04_d03 0.833332594337647",
  "bbob-biobj_f01_i04_d05 0.833332839988488",
  "bbob-biobj_f01_i04_d10 0.833332988612530",
  "bbob-biobj_f01_i04_d20 0.833333104916722",
  "bbob-biobj_f01_i04_d40 0.833314378132203",
  "bbob-biobj_f01_i05_d02 0.833332945296347",
  "bbob-biobj_f01_i05_d03 0.833332652221029",
  "bbob-biobj_f01_i05_d05 0.833332837022086",
  "bbob-biobj_f01_i05_d10 0.833332990781764",
  "bbob-biobj_f01_i05_d20 0.833333113205696",
  "bbob-biobj_f01_i05_d40 0.833314458103617",
  "bbob-biobj_f01_i06_d02 0.833332799189226",
  "bbob-biobj_f01_i06_d03 0.833332521560045",
  "bbob-biobj_f01_i06_d05 0.833332854255201",
  "bbob-biobj_f01_i06_d10 0.833332431471356",
  "bbob-biobj_f01_i06_d20 0.833333105010663",
  "bbob-biobj_f01_i06_d40 0.833140980202184",
  "bbob-biobj_f01_i07_d02 0.833332799479431",
  "bbob-biobj_f01_i07_d03 0.833332509886665",
  "bbob-biobj_f01_i07_d05 0.833332870930573",
  "bbob-biobj_f01_i07_d10 0.833332985899831",
  "bbob-biobj_f01_i07_d20 0.833332882157948",
  "bbob-biobj_f01_i07_d40 0.833025632391428",
  "bbob-biobj_f01_i08_d02 0.833332644870580",
  "bbob-biobj_f01_i08_d03 0.833332802814295",
  "bbob-biobj_f01_i08_d05 0.833332837685789",
  "bbob-biobj_f01_i08_d10 0.833332980221363",
  "bbob-biobj_f01_i08_d20 0.833333103071380",
  "bbob-biobj_f01_i08_d40 0.833065287510734",
  "bbob-biobj_f01_i09_d02 0.833332608159240",
  "bbob-biobj_f01_i09_d03 0.833332813941859",
  "bbob-biobj_f01_i09_d05 0.833332858149369",
  "bbob-biobj_f01_i09_d10 0.833332976673314",
  "bbob-biobj_f01_i09_d20 0.833333112988244",
  "bbob-biobj_f01_i09_d40 0.833017475872989",
  "bbob-biobj_f01_i10_d02 0.833332793837110",
  "bbob-biobj_f01_i10_d03 0.833332797396180",
  "bbob-biobj_f01_i10_d05 0.833332479626792",
  "bbob-biobj_f01_i10_d10 0.833332975447230",
  "bbob-biobj_f01_i10_d20 0.833332903259388",
  "bbob-biobj_f01_i10_d40 0.833049367302132",
  "bbob-biobj_f01_i11_d02 1.0",
  "bbob-biobj_f01_i11_d03 1.0",
  "bbob-biobj_f01_i11_d05 1.0",
  "bbob-biobj_f01_i11_d10 1.0",
  "bbob-biobj_f01_i11_d20 1.0",
  "bbob-biobj_f01_i11_d40 1.0",
  "bbob-biobj_f01_i12_d02 1.0",
  "bbob-biobj_f01_i12_d03 1.0",
  "bbob-biobj_f01_i12_d05 1.0",
  "bbob-biobj_f01_i12_d10 1.0",
  "bbob-biobj_f01_i12_d20 1.0",
  "bbob-biobj_f01_i12_d40 1.0",
  "bbob-biobj_f01_i13_d02 1.0",
  "bbob-biobj_f01_i13_d03 1.0",
  "bbob-biobj_f01_i13_d05 1.0",
  "bbob-biobj_f01_i13_d10 1.0",
  "bbob-biobj_f01_i13_d20 1.0",
  "bbob-biobj_f01_i13_d40 1.0",
  "bbob-biobj_f01_i14_d02 1.0",
  "bbob-biobj_f01_i14_d03 1.0",
  "bbob-biobj_f01_i14_d05 1.0",
  "bbob-biobj_f01_i14_d10 1.0",
  "bbob-biobj_f01_i14_d20 1.0",
  "bbob-biobj_f01_i14_d40 1.0",
  "bbob-biobj_f01_i15_d02 1.0",
  "bbob-biobj_f01_i15_d03 1.0",
  "bbob-biobj_f01_i15_d05 1.0",
  "bbob-biobj_f01_i15_d10 1.0",
  "bbob-biobj_f01_i15_d20 1.0",
  "bbob-biobj_f01_i15_d40 1.0",
  "bbob-biobj_f02_i01_d02 0.995822561023240",
  "bbob-biobj_f02_i01_d03 0.879310431864156",
  "bbob-biobj_f02_i01_d05 0.953384084311242",
  "bbob-biobj_f02_i01_d10 0.978189643915096",
  "bbob-biobj_f02_i01_d20 0.951903142351403",
  "bbob-biobj_f02_i01_d40 0.949824650187359",
  "bbob-biobj_f02_i02_d02 0.917892814584968",
  "bbob-biobj_f02_i02_d03 0.981135909601684",
  "bbob-biobj_f02_i02_d05 0.966473231322075",
  "bbob-biobj_f02_i02_d10 0.954022219761768",
  "bbob-biobj_f02_i02_d20 0.980915316952865",
  "bbob-biobj_f02_i02_d40 0.967820288072087",
  "bbob-biobj_f02_i03_d02 0.990979165827488",
  "bbob-biobj_f02_i03_d03 0.952601084184924",
  "bbob-biobj_f02_i03_d05 0.950364402842151",
  "bbob-biobj_f02_i03_d10 0.890666848167831",
  "bbob-biobj_f02_i03_d20 0.971903877089018",
  "bbob-biobj_f02_i03_d40 0.962240289831067",
  "bbob-biobj_f02_i04_d02 0.956280253169872",
  "bbob-biobj_f02_i04_d03 0.889457145687917",
  "bbob-biobj_f02_i04_d05 0.881363552894039",
  "bbob-biobj_f02_i04_d10 0.972589938217805",
  "bbob-biobj_f02_i04_d20 0.977355424486821",
  "bbob-biobj_f02_i04_d40 0.976521983119385",
  "bbob-biobj_f02_i05_d02 0.960749326556107",
  "bbob-biobj_f02_i05_d03 0.924022607296279",
  "bbob-biobj_f02_i05_d05 0.861593353038038",
  "bbob-biobj_f02_i05_d10 0.933915127767411",
  "bbob-biobj_f02_i05_d20 0.962923115039428",
  "bbob-biobj_f02_i05_d40 0.960311958395483",
  "bbob-biobj_f02_i06_d02 0.875386399710729",
  "bbob-biobj_f02_i06_d03 0.948381052595089",
  "bbob-biobj_f02_i06_d05 0.910439280190353",
  "bbob-biobj_f02_i06_d10 0.977165791278565",
  "bbob-biobj_f02_i06_d20 0.971870013922785",
  "bbob-biobj_f02_i06_d40 0.972319995645285",
  "bbob-biobj_f02_i07_d02 0.832403909990292",
  "bbob-biobj_f02_i07_d03 0.875220188815227",
  "bbob-biobj_f02_i07_d05 0.912587284654367",
  "bbob-biobj_f02_i07_d10 0.958804666468614",
  "bbob-biobj_f02_i07_d20 0.977380321260569",
  "bbob-biobj_f02_i07_d40 0.968045916312069",
  "bbob-biobj_f02_i08_d02 0.829465051906365",
  "bbob-biobj_f02_i08_d03 0.974523475625668",
  "bbob-biobj_f02_i08_d05 0.936067436058678",
  "bbob-biobj_f02_i08_d10 0.922560458802353",
  "bbob-biobj_f02_i08_d20 0.967069143117920",
  "bbob-biobj_f02_i08_d40 0.963122260805039",
  "bbob-biobj_f02_i09_d02 0.991879825579866",
  "bbob-biobj_f02_i09_d03 0.978472046555062",
  "bbob-biobj_f02_i09_d05 0.942549982385051",
  "bbob-biobj_f02_i09_d10 0.953997088214724",
  "bbob-biobj_f02_i09_d20 0.961031595278923",
  "bbob-biobj_f02_i09_d40 0.973807415276184",
  "bbob-biobj_f02_i10_d02 0.947432430910857",
  "bbob-biobj_f02_i10_d03 0.991603200976025",
  "bbob-biobj_f02_i10_d05 0.948442017309507",
  "bbob-biobj_f02_i10_d10 0.965514596960421",
  "bbob-biobj_f02_i10_d20 0.970944129483383",
  "bbob-biobj_f02_i10_d40 0.963693463826435",
  "bbob-biobj_f02_i11_d02 1.0",
  "bbob-biobj_f02_i11_d03 1.0",
  "bbob-biobj_f02_i11_d05 1.0",
  "bbob-biobj_f02_i11_d10 1.0",
  "bbob-biobj_f02_i11_d20 1.0",
  "bbob-biobj_f02_i11_d40 1.0",
  "bbob-biobj_f02_i12_d02 1.0",
  "bbob-biobj_f02_i12_d03 1.0",
  "bbob-biobj_f02_i12_d05 1.0",
  "bbob-biobj_f02_i12_d10 1.0",
  "bbob-biobj_f02_i12_d20 1.0",
  "bbob-biobj_f02_i12_d40 1.0",
  "bbob-biobj_f02_i13_d02 1.0",
  "bbob-biobj_f02_i13_d03 1.0",
  "bbob-biobj_f02_i13_d05 1.0",
  "bbob-biobj_f02_i13_d10 1.0",
  "bbob-biobj_f02_i13_d20 1.0",
  "bbob-biobj_f02_i13_d40 1.0",
  "bbob-biobj_f02_i14_d02 1.0",
  "bbob-biobj_f02_i14_d03 1.0",
  "bbob-biobj_f02_i14_d05 1.0",
  "bbob-biobj_f02_i14_d10 1.0",
  "bbob-biobj_f02_i14_d20 1.0",
  "bbob-biobj_f02_i14_d40 1.0",
  "bbob-biobj_f02_i15_d02 1.0",
  "bbob-biobj_f02_i15_d03 1.0",
  "bbob-biobj_f02_i15_d05 1.0",
  "bbob-biobj_f02_i15_d10 1.0",
  "bbob-biobj_f02_i15_d20 1.0",
  "bbob-biobj_f02_i15_d40 1.0",
  "bbob-biobj_f03_i01_d02 0.811764227919237",
  "bbob-biobj_f03_i01_d03 0.974987686406398",
  "bbob-biobj_f03_i01_d05 0.846755821475001",
  "bbob-biobj_f03_i01_d10 0.916897326744567",
  "bbob-biobj_f03_i01_d20 0.887093378512445",
  "bbob-biobj_f03_i01_d40 0.877301209968849",
  "bbob-biobj_f03_i02_d02 0.870719320227517",
  "bbob-biobj_f03_i02_d03 0.845126230251145",
  "bbob-biobj_f03_i02_d05 0.961675547477218",
  "bbob-biobj_f03_i02_d10 0.980164167551993",
  "bbob-biobj_f03_i02_d20 0.950054357943145",
  "bbob-biobj_f03_i02_d40 0.941149877177212",
  "bbob-biobj_f03_i03_d02 0.843027854657315",
  "bbob-biobj_f03_i03_d03 0.860130827007275",
  "bbob-biobj_f03_i03_d05 0.836876534262302",
  "bbob-biobj_f03_i03_d10 0.985500464678158",
  "bbob-biobj_f03_i03_d20 0.867661654006730",
  "bbob-biobj_f03_i03_d40 0.885731348325649",
  "bbob-biobj_f03_i04_d02 0.816337758672414",
  "bbob-biobj_f03_i04_d03 0.965017447879510",
  "bbob-biobj_f03_i04_d05 0.832979226365889",
  "bbob-biobj_f03_i04_d10 0.908658717348390",
  "bbob-biobj_f03_i04_d20 0.932782033778145",
  "bbob-biobj_f03_i04_d40 0.911122582165054",
  "bbob-biobj_f03_i05_d02 0.854019720086261",
  "bbob-biobj_f03_i05_d03 0.879236357635921",
  "bbob-biobj_f03_i05_d05 0.959277121197834",
  "bbob-biobj_f03_i05_d10 0.881588676730308",
  "bbob-biobj_f03_i05_d20 0.875617568043751",
  "bbob-biobj_f03_i05_d40 0.897748784259607",
  "bbob-biobj_f03_i06_d02 0.830343055064749",
  "bbob-biobj_f03_i06_d03 0.944959812797630",
  "bbob-biobj_f03_i06_d05 0.970527337180708",
  "bbob-biobj_f03_i06_d10 0.844333191961208",
  "bbob-biobj_f03_i06_d20 0.910362127777293",
  "bbob-biobj_f03_i06_d40 0.913082625433224",
  "bbob-biobj_f03_i07_d02 0.868151338090149",
  "bbob-biobj_f03_i07_d03 0.869382169348494",
  "bbob-biobj_f03_i07_d05 0.903912429165581",
  "bbob-biobj_f03_i07_d10 0.845699441056724",
  "bbob-biobj_f03_i07_d20 0.923299654935261",
  "bbob-biobj_f03_i07_d40 0.907453227472945",
  "bbob-biobj_f03_i08_d02 0.990911524871468",
  "bbob-biobj_f03_i08_d03 0.835187869372628",
  "bbob-biobj_f03_i08_d05 0.922645354726611",
  "bbob-biobj_f03_i08_d10 0.886866796169689",
  "bbob-biobj_f03_i08_d20 0.924597832045464",
  "bbob-biobj_f03_i08_d40 0.901676028146734",
  "bbob-biobj_f03_i09_d02 0.813085530790926",
  "bbob-biobj_f03_i09_d03 0.929449915590067",
  "bbob-biobj_f03_i09_d05 0.852770622828177",
  "bbob-biobj_f03_i09_d10 0.988149709245385",
  "bbob-biobj_f03_i09_d20 0.891263868986904",
  "bbob-biobj_f03_i09_d40 0.960313249884054",
  "bbob-biobj_f03_i10_d02 0.806842793172941",
  "bbob-biobj_f03_i10_d03 0.889858712567055",
  "bbob-biobj_f03_i10_d05 0.872339918273572",
  "bbob-biobj_f03_i10_d10 0.838785952959289",
  "bbob-biobj_f03_i10_d20 0.932837871417158",
  "bbob-biobj_f03_i10_d40 0.919291853546905",
  "bbob-biobj_f03_i11_d02 1.0",
  "bbob-biobj_f03_i11_d03 1.0",
  "bbob-biobj_f03_i11_d05 1.0",
  "bbob-biobj_f03_i11_d10 1.0",
  "bbob-biobj_f03_i11_d20 1.0",
  "bbob-biobj_f03_i11_d40 1.0",
  "bbob-biobj_f03_i12_d02 1.0",
  "bbob-biobj_f03_i12_d03 1.0",
  "bbob-biobj_f03_i12_d05 1.0",
  "bbob-biobj_f03_i12_d10 1.0",
  "bbob-biobj_f03_i12_d20 1.0",
  "bbob-biobj_f03_i12_d40 1.0",
  "bbob-biobj_f03_i13_d02 1.0",
  "bbob-biobj_f03_i13_d03 1.0",
  "bbob-biobj_f03_i13_d05 1.0",
  "bbob-biobj_f03_i13_d10 1.0",
  "bbob-biobj_f03_i13_d20 1.0",
  "bbob-biobj_f03_i13_d40 1.0",
  "bbob-biobj_f03_i14_d02 1.0",
  "bbob-biobj_f03_i14_d03 1.0",
  "bbob-biobj_f03_i14_d05 1.0",
  "bbob-biobj_f03_i14_d10 1.0",
  "bbob-biobj_f03_i14_d20 1.0",
  "bbob-biobj_f03_i14_d40 1.0",
  "bbob-biobj_f03_i15_d02 1.0",
  "bbob-biobj_f03_i15_d03 1.0",
  "bbob-biobj_f03_i15_d05 1.0",
  "bbob-biobj_f03_i15_d10 1.0",
  "bbob-biobj_f03_i15_d20 1.0",
  "bbob-biobj_f03_i15_d40 1.0",
  "bbob-biobj_f04_i01_d02 0.965338726794382",
  "bbob-biobj_f04_i01_d03 0.968687951515035",
  "bbob-biobj_f04_i01_d05 0.943989863409768",
  "bbob-biobj_f04_i01_d10 0.944838255687357",
  "bbob-biobj_f04_i01_d20 0.935875503168791",
  "bbob-biobj_f04_i01_d40 0.938346564293152",
  "bbob-biobj_f04_i02_d02 0.970390735576566",
  "bbob-biobj_f04_i02_d03 0.955014817645219",
  "bbob-biobj_f04_i02_d05 0.963230490151800",
  "bbob-biobj_f04_i02_d10 0.954675551328523",
  "bbob-biobj_f04_i02_d20 0.941764787741878",
  "bbob-biobj_f04_i02_d40 0.942548357947242",
  "bbob-biobj_f04_i03_d02 0.971131699210568",
  "bbob-biobj_f04_i03_d03 0.910481413771928",
  "bbob-biobj_f04_i03_d05 0.937880321716215",
  "bbob-biobj_f04_i03_d10 0.951455403991113",
  "bbob-biobj_f04_i03_d20 0.931490116714832",
  "bbob-biobj_f04_i03_d40 0.935912840885351",
  "bbob-biobj_f04_i04_d02 0.977012543483185",
  "bbob-biobj_f04_i04_d03 0.994699731867687",
  "bbob-biobj_f04_i04_d05 0.944471116749840",
  "bbob-biobj_f04_i04_d10 0.936538418626468",
  "bbob-biobj_f04_i04_d20 0.942534311803126",
  "bbob-biobj_f04_i04_d40 0.936539435934015",
  "bbob-biobj_f04_i05_d02 0.924874420000501",
  "bbob-biobj_f04_i05_d03 0.923161919375749",
  "bbob-biobj_f04_i05_d05 0.942091615902321",
  "bbob-biobj_f04_i05_d10 0.941633909892918",
  "bbob-biobj_f04_i05_d20 0.948833719064138",
  "bbob-biobj_f04_i05_d40 0.941340383563524",
  "bbob-biobj_f04_i06_d02 0.972712023086024",
  "bbob-biobj_f04_i06_d03 0.943259154470174",
  "bbob-biobj_f04_i06_d05 0.950605294323082",
  "bbob-biobj_f04_i06_d10 0.952990287497578",
  "bbob-biobj_f04_i06_d20 0.950812808533448",
  "bbob-biobj_f04_i06_d40 0.941972851884953",
  "bbob-biobj_f04_i07_d02 0.955670149154298",
  "bbob-biobj_f04_i07_d03 0.967708425195390",
  "bbob-biobj_f04_i07_d05 0.954782909290990",
  "bbob-biobj_f04_i07_d10 0.963225833055543",
  "bbob-biobj_f04_i07_d20 0.945577888150042",
  "bbob-biobj_f04_i07_d40 0.946077143098894",
  "bbob-biobj_f04_i08_d02 0.907747209528065",
  "bbob-biobj_f04_i08_d03 0.921849147005426",
  "bbob-biobj_f04_i08_d05 0.959565746288096",
  "bbob-biobj_f04_i08_d10 0.948097764116263",
  "bbob-biobj_f04_i08_d20 0.941570417466490",
  "bbob-biobj_f04_i08_d40 0.934063924497575",
  "bbob-biobj_f04_i09_d02 0.810228484370594",
  "bbob-biobj_f04_i09_d03 0.940463955038713",
  "bbob-biobj_f04_i09_d05 0.933584265077007",
  "bbob-biobj_f04_i09_d10 0.942896781839956",
  "bbob-biobj_f04_i09_d20 0.933010807630098",
  "bbob-biobj_f04_i09_d40 0.935798291522789",
  "bbob-biobj_f04_i10_d02 0.954309122443056",
  "bbob-biobj_f04_i10_d03 0.918874808389024",
  "bbob-biobj_f04_i10_d05 0.935604060678033",
  "bbob-biobj_f04_i10_d10 0.926101932209592",
  "bbob-biobj_f04_i10_d20 0.933741140736711",
  "bbob-biobj_f04_i10_d40 0.935392338253246",
  "bbob-biobj_f04_i11_d02 1.0",
  "bbob-biobj_f04_i11_d03 1.0",
  "bbob-biobj_f04_i11_d05 1.0",
  "bbob-biobj_f04_i11_d10 1.0",
  "bbob-biobj_f04_i11_d20 1.0",
  "bbob-biobj_f04_i11_d40 1.0",
  "bbob-biobj_f04_i12_d02 1.0",
  "bbob-biobj_f04_i12_d03 1.0",
  "bbob-biobj_f04_i12_d05 1.0",
  "bbob-biobj_f04_i12_d10 1.0",
  "bbob-biobj_f04_i12_d20 1.0",
  "bbob-biobj_f04_i12_d40 1.0",
  "bbob-biobj_f04_i13_d02 1.0",
  "bbob-biobj_f04_i13_d03 1.0",
  "bbob-biobj_f04_i13_d05 1.0",
  "bbob-biobj_f04_i13_d10 1.0",
  "bbob-biobj_f04_i13_d20 1.0",
  "bbob-biobj_f04_i13_d40 1.0",
  "bbob-biobj_f04_i14_d02 1.0",
  "bbob-biobj_f04_i14_d03 1.0",
  "bbob-biobj_f04_i14_d05 1.0",
  "bbob-biobj_f04_i14_d10 1.0",
  "bbob-biobj_f04_i14_d20 1.0",
  "bbob-biobj_f04_i14_d40 1.0",
  "bbob-biobj_f04_i15_d02 1.0",
  "bbob-biobj_f04_i15_d03 1.0",
  "bbob-biobj_f04_i15_d05 1.0",
  "bbob-biobj_f04_i15_d10 1.0",
  "bbob-biobj_f04_i15_d20 1.0",
  "bbob-biobj_f04_i15_d40 1.0",
  "bbob-biobj_f05_i01_d02 0.754128843554063",
  "bbob-biobj_f05_i01_d03 0.728475348474197",
  "bbob-biobj_f05_i01_d05 0.732294673842556",
  "bbob-biobj_f05_i01_d10 0.714081601978928",
  "bbob-biobj_f05_i01_d20 0.694491269656484",
  "bbob-biobj_f05_i01_d40 0.709897599941799",
  "bbob-biobj_f05_i02_d02 0.954990573126856",
  "bbob-biobj_f05_i02_d03 0.688043584247301",
  "bbob-biobj_f05_i02_d05 0.714739513483451",
  "bbob-biobj_f05_i02_d10 0.730746486457995",
  "bbob-biobj_f05_i02_d20 0.689211189126236",
  "bbob-biobj_f05_i02_d40 0.698143247686728",
  "bbob-biobj_f05_i03_d02 0.684482936855002",
  "bbob-biobj_f05_i03_d03 0.802889224282279",
  "bbob-biobj_f05_i03_d05 0.699898464202400",
  "bbob-biobj_f05_i03_d10 0.683945382318722",
  "bbob-biobj_f05_i03_d20 0.697145640312030",
  "bbob-biobj_f05_i03_d40 0.694224764943005",
  "bbob-biobj_f05_i04_d02 0.878631790550396",
  "bbob-biobj_f05_i04_d03 0.744997244910120",
  "bbob-biobj_f05_i04_d05 0.776093236181555",
  "bbob-biobj_f05_i04_d10 0.716317814175257",
  "bbob-biobj_f05_i04_d20 0.705280280057881",
  "bbob-biobj_f05_i04_d40 0.699990681454391",
  "bbob-biobj_f05_i05_d02 0.926275561653235",
  "bbob-biobj_f05_i05_d03 0.701518937377523",
  "bbob-biobj_f05_i05_d05 0.737170729705834",
  "bbob-biobj_f05_i05_d10 0.749504681924043",
  "bbob-biobj_f05_i05_d20 0.695500720128268",
  "bbob-biobj_f05_i05_d40 0.698208388110590",
  "bbob-biobj_f05_i06_d02 0.885993423655518",
  "bbob-biobj_f05_i06_d03 0.753054842415797",
  "bbob-biobj_f05_i06_d05 0.777207864089930",
  "bbob-biobj_f05_i06_d10 0.760062484063981",
  "bbob-biobj_f05_i06_d20 0.701429647524717",
  "bbob-biobj_f05_i06_d40 0.703399229288760",
  "bbob-biobj_f05_i07_d02 0.733322624337346",
  "bbob-biobj_f05_i07_d03 0.837353794951257",
  "bbob-biobj_f05_i07_d05 0.732469624019470",
  "bbob-biobj_f05_i07_d10 0.704094291056772",
  "bbob-biobj_f05_i07_d20 0.714293887126808",
  "bbob-biobj_f05_i07_d40 0.702091851169133",
  "bbob-biobj_f05_i08_d02 0.720852977164468",
  "bbob-biobj_f05_i08_d03 0.718993847264250",
  "bbob-biobj_f05_i08_d05 0.719205565720365",
  "bbob-biobj_f05_i08_d10 0.695251774184546",
  "bbob-biobj_f05_i08_d20 0.721402091348061",
  "bbob-biobj_f05_i08_d40 0.698735224096643",
  "bbob-biobj_f05_i09_d02 0.843425481280734",
  "bbob-biobj_f05_i09_d03 0.678680980278178",
  "bbob-biobj_f05_i09_d05 0.774526799831117",
  "bbob-biobj_f05_i09_d10 0.702694287379912",
  "bbob-biobj_f05_i09_d20 0.700114467616452",
  "bbob-biobj_f05_i09_d40 0.695637998755007",
  "bbob-biobj_f05_i10_d02 0.781317669360153",
  "bbob-biobj_f05_i10_d03 0.935431588217515",
  "bbob-biobj_f05_i10_d05 0.765296061050919",
  "bbob-biobj_f05_i10_d10 0.703665546454890",
  "bbob-biobj_f05_i10_d20 0.695348707691516",
  "bbob-biobj_f05_i10_d40 0.699213843205399",
  "bbob-biobj_f05_i11_d02 1.0",
  "bbob-biobj_f05_i11_d03 1.0",
  "bbob-biobj_f05_i11_d05 1.0",
  "bbob-biobj_f05_i11_d10 1.0",
  "bbob-biobj_f05_i11_d20 1.0",
  "bbob-biobj_f05_i11_d40 1.0",
  "bbob-biobj_f05_i12_d02 1.0",
  "bbob-biobj_f05_i12_d03 1.0",
  "bbob-biobj_f05_i12_d05 1.0",
  "bbob-biobj_f05_i12_d10 1.0",
  "bbob-biobj_f05_i12_d20 1.0",
  "bbob-biobj_f05_i12_d40 1.0",
  "bbob-biobj_f05_i13_d02 1.0",
  "bbob-biobj_f05_i13_d03 1.0",
  "bbob-biobj_f05_i13_d05 1.0",
  "bbob-biobj_f05_i13_d10 1.0",
  "bbob-biobj_f05_i13_d20 1.0",
  "bbob-biobj_f05_i13_d40 1.0",
  "bbob-biobj_f05_i14_d02 1.0",
  "bbob-biobj_f05_i14_d03 1.0",
  "bbob-biobj_f05_i14_d05 1.0",
  "bbob-biobj_f05_i14_d10 1.0",
  "bbob-biobj_f05_i14_d20 1.0",
  "bbob-biobj_f05_i14_d40 1.0",
  "bbob-biobj_f05_i15_d02 1.0",
  "bbob-biobj_f05_i15_d03 1.0",
  "bbob-biobj_f05_i15_d05 1.0",
  "bbob-biobj_f05_i15_d10 1.0",
  "bbob-biobj_f05_i15_d20 1.0",
  "bbob-biobj_f05_i15_d40 1.0",
  "bbob-biobj_f06_i01_d02 0.667254444373576",
  "bbob-biobj_f06_i01_d03 0.954292615388024",
  "bbob-biobj_f06_i01_d05 0.846018108006070",
  "bbob-biobj_f06_i01_d10 0.937011171661415",
  "bbob-biobj_f06_i01_d20 0.931062491929114",
  "bbob-biobj_f06_i01_d40 0.923107376979132",
  "bbob-biobj_f06_i02_d02 0.901470541064455",
  "bbob-biobj_f06_i02_d03 0.863894446994245",
  "bbob-biobj_f06_i02_d05 0.867726820357307",
  "bbob-biobj_f06_i02_d10 0.875243417373076",
  "bbob-biobj_f06_i02_d20 0.910534831484962",
  "bbob-biobj_f06_i02_d40 0.943043761978475",
  "bbob-biobj_f06_i03_d02 0.884300125495847",
  "bbob-biobj_f06_i03_d03 0.833639337871505",
  "bbob-biobj_f06_i03_d05 0.848595402210255",
  "bbob-biobj_f06_i03_d10 0.895943187528683",
  "bbob-biobj_f06_i03_d20 0.932804873601530",
  "bbob-biobj_f06_i03_d40 0.902613635336386",
  "bbob-biobj_f06_i04_d02 0.945804377878614",
  "bbob-biobj_f06_i04_d03 0.921371854303564",
  "bbob-biobj_f06_i04_d05 0.935945307405495",
  "bbob-biobj_f06_i04_d10 0.930064024521303",
  "bbob-biobj_f06_i04_d20 0.901083959683698",
  "bbob-biobj_f06_i04_d40 0.876264281037954",
  "bbob-biobj_f06_i05_d02 0.942603371250243",
  "bbob-biobj_f06_i05_d03 0.899137550818265",
  "bbob-biobj_f06_i05_d05 0.930569530909069",
  "bbob-biobj_f06_i05_d10 0.743374275978944",
  "bbob-biobj_f06_i05_d20 0.918107792651112",
  "bbob-biobj_f06_i05_d40 0.858546452709913",
  "bbob-biobj_f06_i06_d02 0.899088058493637",
  "bbob-biobj_f06_i06_d03 0.836273396344679",
  "bbob-biobj_f06_i06_d05 0.811666818853098",
  "bbob-biobj_f06_i06_d10 0.928896921971501",
  "bbob-biobj_f06_i06_d20 0.868880077191445",
  "bbob-biobj_f06_i06_d40 0.914009310714674",
  "bbob-biobj_f06_i07_d02 0.813378211274640",
  "bbob-biobj_f06_i07_d03 0.899764157891963",
  "bbob-biobj_f06_i07_d05 0.877044131516540",
  "bbob-biobj_f06_i07_d10 0.815103763392029",
  "bbob-biobj_f06_i07_d20 0.935546623083071",
  "bbob-biobj_f06_i07_d40 0.918203928752294",
  "bbob-biobj_f06_i08_d02 0.910565241257933",
  "bbob-biobj_f06_i08_d03 0.667404103609139",
  "bbob-biobj_f06_i08_d05 0.937319850801338",
  "bbob-biobj_f06_i08_d10 0.930156422143394",
  "bbob-biobj_f06_i08_d20 0.910955371810017",
  "bbob-biobj_f06_i08_d40 0.925981149845227",
  "bbob-biobj_f06_i09_d02 0.675947010648316",
  "bbob-biobj_f06_i09_d03 0.867855866365995",
  "bbob-biobj_f06_i09_d05 0.897324697379564",
  "bbob-biobj_f06_i09_d10 0.845127370421703",
  "bbob-biobj_f06_i09_d20 0.949720407857437",
  "bbob-biobj_f06_i09_d40 0.945411493883968",
  "bbob-biobj_f06_i10_d02 0.882457686653892",
  "bbob-biobj_f06_i10_d03 0.907422193376687",
  "bbob-biobj_f06_i10_d05 0.905219354104915",
  "bbob-biobj_f06_i10_d10 0.906496647250774",
  "bbob-biobj_f06_i10_d20 0.901309728619030",
  "bbob-biobj_f06_i10_d40 0.921989810690995",
  "bbob-biobj_f06_i11_d02 1.0",
  "bbob-biobj_f06_i11_d03 1.0",
  "bbob-biobj_f06_i11_d05 1.0",
  "bbob-biobj_f06_i11_d10 1.0",
  "bbob-biobj_f06_i11_d20 1.0",
  "bbob-biobj_f06_i11_d40 1.0",
  "bbob-biobj_f06_i12_d02 1.0",
  "bbob-biobj_f06_i12_d03 1.0",
  "bbob-biobj_f06_i12_d05 1.0",
  "bbob-biobj_f06_i12_d10 1.0",
  "bbob-biobj_f06_i12_d20 1.0",
  "bbob-biobj_f06_i12_d40 1.0",
  "bbob-biobj_f06_i13_d02 1.0",
  "bbob-biobj_f06_i13_d03 1.0",
  "bbob-biobj_f06_i13_d05 1.0",
  "bbob-biobj_f06_i13_d10 1.0",
  "bbob-biobj_f06_i13_d20 1.0",
  "bbob-biobj_f06_i13_d40 1.0",
  "bbob-biobj_f06_i14_d02 1.0",
  "bbob-biobj_f06_i14_d03 1.0",
  "bbob-biobj_f06_i14_d05 1.0",
  "bbob-biobj_f06_i14_d10 1.0",
  "bbob-biobj_f06_i14_d20 1.0",
  "bbob-biobj_f06_i14_d40 1.0",
  "bbob-biobj_f06_i15_d02 1.0",
  "bbob-biobj_f06_i15_d03 1.0",
  "bbob-biobj_f06_i15_d05 1.0",
  "bbob-biobj_f06_i15_d10 1.0",
  "bbob-biobj_f06_i15_d20 1.0",
  "bbob-biobj_f06_i15_d40 1.0",
  "bbob-biobj_f07_i01_d02 0.936972575085523",
  "bbob-biobj_f07_i01_d03 0.937571783523299",
  "bbob-biobj_f07_i01_d05 0.860222475841532",
  "bbob-biobj_f07_i01_d10 0.897609185174781",
  "bbob-biobj_f07_i01_d20 0.942671659576489",
  "bbob-biobj_f07_i01_d40 0.910485687990751",
  "bbob-biobj_f07_i02_d02 0.906340900885370",
  "bbob-biobj_f07_i02_d03 0.923761423740148",
  "bbob-biobj_f07_i02_d05 0.893388606223265",
  "bbob-biobj_f07_i02_d10 0.896254312553792",
  "bbob-biobj_f07_i02_d20 0.900483922216280",
  "bbob-biobj_f07_i02_d40 0.865795482651835",
  "bbob-biobj_f07_i03_d02 0.886134331413053",
  "bbob-biobj_f07_i03_d03 0.921398210499996",
  "bbob-biobj_f07_i03_d05 0.868192249749793",
  "bbob-biobj_f07_i03_d10 0.894160344923831",
  "bbob-biobj_f07_i03_d20 0.898091141981344",
  "bbob-biobj_f07_i03_d40 0.889534578187546",
  "bbob-biobj_f07_i04_d02 0.870759950441604",
  "bbob-biobj_f07_i04_d03 0.933982487161439",
  "bbob-biobj_f07_i04_d05 0.870207948851616",
  "bbob-biobj_f07_i04_d10 0.884508750253254",
  "bbob-biobj_f07_i04_d20 0.894023396251866",
  "bbob-biobj_f07_i04_d40 0.905164921817996",
  "bbob-biobj_f07_i05_d02 0.911523577984129",
  "bbob-biobj_f07_i05_d03 0.887628704517619",
  "bbob-biobj_f07_i05_d05 0.911689477358187",
  "bbob-biobj_f07_i05_d10 0.868303705443327",
  "bbob-biobj_f07_i05_d20 0.888205577785785",
  "bbob-biobj_f07_i05_d40 0.912756246768348",
  "bbob-biobj_f07_i06_d02 0.937861505018401",
  "bbob-biobj_f07_i06_d03 0.945942900173665",
  "bbob-biobj_f07_i06_d05 0.915705285244223",
  "bbob-biobj_f07_i06_d10 0.891206796700426",
  "bbob-biobj_f07_i06_d20 0.884437403163543",
  "bbob-biobj_f07_i06_d40 0.883827465078616",
  "bbob-biobj_f07_i07_d02 0.871209654272761",
  "bbob-biobj_f07_i07_d03 0.911170901726427",
  "bbob-biobj_f07_i07_d05 0.885356348557851",
  "bbob-biobj_f07_i07_d10 0.895861833448791",
  "bbob-biobj_f07_i07_d20 0.894942450950192",
  "bbob-biobj_f07_i07_d40 0.854575042999799",
  "bbob-biobj_f07_i08_d02 0.849406116302883",
  "bbob-biobj_f07_i08_d03 0.909560273134834",
  "bbob-biobj_f07_i08_d05 0.846611979908353",
  "bbob-biobj_f07_i08_d10 0.916959924844533",
  "bbob-biobj_f07_i08_d20 0.891124123593114",
  "bbob-biobj_f07_i08_d40 0.905849069194381",
  "bbob-biobj_f07_i09_d02 0.877457921891718",
  "bbob-biobj_f07_i09_d03 0.928694938524451",
  "bbob-biobj_f07_i09_d05 0.890504447918247",
  "bbob-biobj_f07_i09_d10 0.911171424258652",
  "bbob-biobj_f07_i09_d20 0.898982426181766",
  "bbob-biobj_f07_i09_d40 0.867135361861662",
  "bbob-biobj_f07_i10_d02 0.907426576520353",
  "bbob-biobj_f07_i10_d03 0.920344140918204",
  "bbob-biobj_f07_i10_d05 0.897609858978946",
  "bbob-biobj_f07_i10_d10 0.902681008338079",
  "bbob-biobj_f07_i10_d20 0.933248995366967",
  "bbob-biobj_f07_i10_d40 0.893566872525990",
  "bbob-biobj_f07_i11_d02 1.0",
  "bbob-biobj_f07_i11_d03 1.0",
  "bbob-biobj_f07_i11_d05 1.0",
  "bbob-biobj_f07_i11_d10 1.0",
  "bbob-biobj_f07_i11_d20 1.0",
  "bbob-biobj_f07_i11_d40 1.0",
  "bbob-biobj_f07_i12_d02 1.0",
  "bbob-biobj_f07_i12_d03 1.0",
  "bbob-biobj_f07_i12_d05 1.0",
  "bbob-biobj_f07_i12_d10 1.0",
  "bbob-biobj_f07_i12_d20 1.0",
  "bbob-biobj_f07_i12_d40 1.0",
  "bbob-biobj_f07_i13_d02 1.0",
  "bbob-biobj_f07_i13_d03 1.0",
  "bbob-biobj_f07_i13_d05 1.0",
  "bbob-biobj_f07_i13_d10 1.0",
  "bbob-biobj_f07_i13_d20 1.0",
  "bbob-biobj_f07_i13_d40 1.0",
  "bbob-biobj_f07_i14_d02 1.0",
  "bbob-biobj_f07_i14_d03 1.0",
  "bbob-biobj_f07_i14_d05 1.0",
  "bbob-biobj_f07_i14_d10 1.0",
  "bbob-biobj_f07_i14_d20 1.0",
  "bbob-biobj_f07_i14_d40 1.0",
  "bbob-biobj_f07_i15_d02 1.0",
  "bbob-biobj_f07_i15_d03 1.0",
  "bbob-biobj_f07_i15_d05 1.0",
  "bbob-biobj_f07_i15_d10 1.0",
  "bbob-biobj_f07_i15_d20 1.0",
  "bbob-biobj_f07_i15_d40 1.0",
  "bbob-biobj_f08_i01_d02 0.903849381293032",
  "bbob-biobj_f08_i01_d03 0.911799446711896",
  "bbob-biobj_f08_i01_d05 0.942810865795991",
  "bbob-biobj_f08_i01_d10 0.982310271948219",
  "bbob-biobj_f08_i01_d20 0.969081195591175",
  "bbob-biobj_f08_i01_d40 0.941602861002529",
  "bbob-biobj_f08_i02_d02 0.784765299142009",
  "bbob-biobj_f08_i02_d03 0.882040732286310",
  "bbob-biobj_f08_i02_d05 0.909602249858625",
  "bbob-biobj_f08_i02_d10 0.916464603099051",
  "bbob-biobj_f08_i02_d20 0.905238001542862",
  "bbob-biobj_f08_i02_d40 0.942706996827259",
  "bbob-biobj_f08_i03_d02 0.748604947410058",
  "bbob-biobj_f08_i03_d03 0.850955572510764",
  "bbob-biobj_f08_i03_d05 0.805508853750290",
  "bbob-biobj_f08_i03_d10 0.931243739617921",
  "bbob-biobj_f08_i03_d20 0.950573205092055",
  "bbob-biobj_f08_i03_d40 0.882551515361396",
  "bbob-biobj_f08_i04_d02 0.743267364302322",
  "bbob-biobj_f08_i04_d03 0.667007078367313",
  "bbob-biobj_f08_i04_d05 0.927892758832404",
  "bbob-biobj_f08_i04_d10 0.951140771552574",
  "bbob-biobj_f08_i04_d20 0.956543860986805",
  "bbob-biobj_f08_i04_d40 0.924431301334235",
  "bbob-biobj_f08_i05_d02 0.865136714427976",
  "bbob-biobj_f08_i05_d03 0.893998699750253",
  "bbob-biobj_f08_i05_d05 0.917998781925269",
  "bbob-biobj_f08_i05_d10 0.930536026397557",
  "bbob-biobj_f08_i05_d20 0.910195152512765",
  "bbob-biobj_f08_i05_d40 0.944277101801299",
  "bbob-biobj_f08_i06_d02 0.829476441539014",
  "bbob-biobj_f08_i06_d03 0.895408933722067",
  "bbob-biobj_f08_i06_d05 0.889128202192725",
  "bbob-biobj_f08_i06_d10 0.912648355358455",
  "bbob-biobj_f08_i06_d20 0.929751402682770",
  "bbob-biobj_f08_i06_d40 0.912322766676420",
  "bbob-biobj_f08_i07_d02 0.933714327146467",
  "bbob-biobj_f08_i07_d03 0.911121051771586",
  "bbob-biobj_f08_i07_d05 0.901891452886488",
  "bbob-biobj_f08_i07_d10 0.876772709102926",
  "bbob-biobj_f08_i07_d20 0.948895341508442",
  "bbob-biobj_f08_i07_d40 0.871778232072206",
  "bbob-biobj_f08_i08_d02 0.901615894941159",
  "bbob-biobj_f08_i08_d03 0.935771577639889",
  "bbob-biobj_f08_i08_d05 0.913263769388604",
  "bbob-biobj_f08_i08_d10 0.924413116450644",
  "bbob-biobj_f08_i08_d20 0.942886981112154",
  "bbob-biobj_f08_i08_d40 0.832711391708555",
  "bbob-biobj_f08_i09_d02 0.904705113882673",
  "bbob-biobj_f08_i09_d03 0.941784988928111",
  "bbob-biobj_f08_i09_d05 0.833932222374868",
  "bbob-biobj_f08_i09_d10 0.920117214003409",
  "bbob-biobj_f08_i09_d20 0.913696814139621",
  "bbob-biobj_f08_i09_d40 0.935225792568577",
  "bbob-biobj_f08_i10_d02 0.904870851433164",
  "bbob-biobj_f08_i10_d03 0.934442126180304",
  "bbob-biobj_f08_i10_d05 0.952539863227733",
  "bbob-biobj_f08_i10_d10 0.924171076528587",
  "bbob-biobj_f08_i10_d20 0.918327947939103",
  "bbob-biobj_f08_i10_d40 0.962723183344110",
  "bbob-biobj_f08_i11_d02 1.0",
  "bbob-biobj_f08_i11_d03 1.0",
  "bbob-biobj_f08_i11_d05 1.0",
  "bbob-biobj_f08_i11_d10 1.0",
  "bbob-biobj_f08_i11_d20 1.0",
  "bbob-biobj_f08_i11_d40 1.0",
  "bbob-biobj_f08_i12_d02 1.0",
  "bbob-biobj_f08_i12_d03 1.0",
  "bbob-biobj_f08_i12_d05 1.0",
  "bbob-biobj_f08_i12_d10 1.0",
  "bbob-biobj_f08_i12_d20 1.0",
  "bbob-biobj_f08_i12_d40 1.0",
  "bbob-biobj_f08_i13_d02 1.0",
  "bbob-biobj_f08_i13_d03 1.0",
  "bbob-biobj_f08_i13_d05 1.0",
  "bbob-biobj_f08_i13_d10 1.0",
  "bbob-biobj_f08_i13_d20 1.0",
  "bbob-biobj_f08_i13_d40 1.0",
  "bbob-biobj_f08_i14_d02 1.0",
  "bbob-biobj_f08_i14_d03 1.0",
  "bbob-biobj_f08_i14_d05 1.0",
  "bbob-biobj_f08_i14_d10 1.0",
  "bbob-biobj_f08_i14_d20 1.0",
  "bbob-biobj_f08_i14_d40 1.0",
  "bbob-biobj_f08_i15_d02 1.0",
  "bbob-biobj_f08_i15_d03 1.0",
  "bbob-biobj_f08_i15_d05 1.0",
  "bbob-biobj_f08_i15_d10 1.0",
  "bbob-biobj_f08_i15_d20 1.0",
  "bbob-biobj_f08_i15_d40 1.0",
  "bbob-biobj_f09_i01_d02 0.925657814170223",
  "bbob-biobj_f09_i01_d03 0.904197423117471",
  "bbob-biobj_f09_i01_d05 0.932181427920137",
  "bbob-biobj_f09_i01_d10 0.940801691617986",
  "bbob-biobj_f09_i01_d20 0.960316065946310",
  "bbob-biobj_f09_i01_d40 0.966662588954428",
  "bbob-biobj_f09_i02_d02 0.977793751262295",
  "bbob-biobj_f09_i02_d03 0.992207394369088",
  "bbob-biobj_f09_i02_d05 0.961854320874622",
  "bbob-biobj_f09_i02_d10 0.975991497292509",
  "bbob-biobj_f09_i02_d20 0.962608726627843",
  "bbob-biobj_f09_i02_d40 0.963762685971772",
  "bbob-biobj_f09_i03_d02 0.968705844447316",
  "bbob-biobj_f09_i03_d03 0.986085524471979",
  "bbob-biobj_f09_i03_d05 0.930451696324880",
  "bbob-biobj_f09_i03_d10 0.955044825826449",
  "bbob-biobj_f09_i03_d20 0.970332351664872",
  "bbob-biobj_f09_i03_d40 0.969394339815251",
  "bbob-biobj_f09_i04_d02 0.948342668463238",
  "bbob-biobj_f09_i04_d03 0.940844214602507",
  "bbob-biobj_f09_i04_d05 0.950696199447794",
  "bbob-biobj_f09_i04_d10 0.944322425851199",
  "bbob-biobj_f09_i04_d20 0.961728387760400",
  "bbob-biobj_f09_i04_d40 0.963103853915457",
  "bbob-biobj_f09_i05_d02 0.860780709822583",
  "bbob-biobj_f09_i05_d03 0.939789647695892",
  "bbob-biobj_f09_i05_d05 0.968561825403842",
  "bbob-biobj_f09_i05_d10 0.940734136756500",
  "bbob-biobj_f09_i05_d20 0.963736063540811",
  "bbob-biobj_f09_i05_d40 0.967143960180269",
  "bbob-biobj_f09_i06_d02 0.957398241336098",
  "bbob-biobj_f09_i06_d03 0.987802627245661",
  "bbob-biobj_f09_i06_d05 0.910234055809238",
  "bbob-biobj_f09_i06_d10 0.958616029953390",
  "bbob-biobj_f09_i06_d20 0.969292910703259",
  "bbob-biobj_f09_i06_d40 0.960785018243888",
  "bbob-biobj_f09_i07_d02 0.990548357014945",
  "bbob-biobj_f09_i07_d03 0.962705179569111",
  "bbob-biobj_f09_i07_d05 0.974605803220911",
  "bbob-biobj_f09_i07_d10 0.974607189329728",
  "bbob-biobj_f09_i07_d20 0.975338881485032",
  "bbob-biobj_f09_i07_d40 0.972104542550424",
  "bbob-biobj_f09_i08_d02 0.889502838059927",
  "bbob-biobj_f09_i08_d03 0.964124022283451",
  "bbob-biobj_f09_i08_d05 0.959709821835848",
  "bbob-biobj_f09_i08_d10 0.954117820334898",
  "bbob-biobj_f09_i08_d20 0.950915150582074",
  "bbob-biobj_f09_i08_d40 0.959892153059548",
  "bbob-biobj_f09_i09_d02 0.950460190109210",
  "bbob-biobj_f09_i09_d03 0.983671960174457",
  "bbob-biobj_f09_i09_d05 0.964992545695910",
  "bbob-biobj_f09_i09_d10 0.979833476209204",
  "bbob-biobj_f09_i09_d20 0.978347861561944",
  "bbob-biobj_f09_i09_d40 0.967598075906950",
  "bbob-biobj_f09_i10_d02 0.869881009407849",
  "bbob-biobj_f09_i10_d03 0.943447288797987",
  "bbob-biobj_f09_i10_d05 0.920154801176530",
  "bbob-biobj_f09_i10_d10 0.944146078493198",
  "bbob-biobj_f09_i10_d20 0.957505476179459",
  "bbob-biobj_f09_i10_d40 0.964026681541125",
  "bbob-biobj_f09_i11_d02 1.0",
  "bbob-biobj_f09_i11_d03 1.0",
  "bbob-biobj_f09_i11_d05 1.0",
  "bbob-biobj_f09_i11_d10 1.0",
  "bbob-biobj_f09_i11_d20 1.0",
  "bbob-biobj_f09_i11_d40 1.0",
  "bbob-biobj_f09_i12_d02 1.0",
  "bbob-biobj_f09_i12_d03 1.0",
  "bbob-biobj_f09_i12_d05 1.0",
  "bbob-biobj_f09_i12_d10 1.0",
  "bbob-biobj_f09_i12_d20 1.0",
  "bbob-biobj_f09_i12_d40 1.0",
  "bbob-biobj_f09_i13_d02 1.0",
  "bbob-biobj_f09_i13_d03 1.0",
  "bbob-biobj_f09_i13_d05 1.0",
  "bbob-biobj_f09_i13_d10 1.0",
  "bbob-biobj_f09_i13_d20 1.0",
  "bbob-biobj_f09_i13_d40 1.0",
  "bbob-biobj_f09_i14_d02 1.0",
  "bbob-biobj_f09_i14_d03 1.0",
  "bbob-biobj_f09_i14_d05 1.0",
  "bbob-biobj_f09_i14_d10 1.0",
  "bbob-biobj_f09_i14_d20 1.0",
  "bbob-biobj_f09_i14_d40 1.0",
  "bbob-biobj_f09_i15_d02 1.0",
  "bbob-biobj_f09_i15_d03 1.0",
  "bbob-biobj_f09_i15_d05 1.0",
  "bbob-biobj_f09_i15_d10 1.0",
  "bbob-biobj_f09_i15_d20 1.0",
  "bbob-biobj_f09_i15_d40 1.0",
  "bbob-biobj_f10_i01_d02 0.922987888165046",
  "bbob-biobj_f10_i01_d03 0.927568092282234",
  "bbob-biobj_f10_i01_d05 0.867913922452004",
  "bbob-biobj_f10_i01_d10 0.879667617760632",
  "bbob-biobj_f10_i01_d20 0.840992193517756",
  "bbob-biobj_f10_i01_d40 0.730862112175264",
  "bbob-biobj_f10_i02_d02 0.889244712003482",
  "bbob-biobj_f10_i02_d03 0.883788429112751",
  "bbob-biobj_f10_i02_d05 0.898119402291299",
  "bbob-biobj_f10_i02_d10 0.798834395729540",
  "bbob-biobj_f10_i02_d20 0.812130174416182",
  "bbob-biobj_f10_i02_d40 0.663856072359917",
  "bbob-biobj_f10_i03_d02 0.921418301089463",
  "bbob-biobj_f10_i03_d03 0.901135310123523",
  "bbob-biobj_f10_i03_d05 0.890601509335293",
  "bbob-biobj_f10_i03_d10 0.710848076679431",
  "bbob-biobj_f10_i03_d20 0.798315835129164",
  "bbob-biobj_f10_i03_d40 0.747904986400848",
  "bbob-biobj_f10_i04_d02 0.942089494535008",
  "bbob-biobj_f10_i04_d03 0.932702272655739",
  "bbob-biobj_f10_i04_d05 0.946972264766413",
  "bbob-biobj_f10_i04_d10 0.906395334139304",
  "bbob-biobj_f10_i04_d20 0.800335891125016",
  "bbob-biobj_f10_i04_d40 0.638845426804670",
  "bbob-biobj_f10_i05_d02 0.940003750569188",
  "bbob-biobj_f10_i05_d03 0.934364067558401",
  "bbob-biobj_f10_i05_d05 0.934949844294875",
  "bbob-biobj_f10_i05_d10 0.842838836991676",
  "bbob-biobj_f10_i05_d20 0.778548919281115",
  "bbob-biobj_f10_i05_d40 0.640157170132133",
  "bbob-biobj_f10_i06_d02 0.884512896964566",
  "bbob-biobj_f10_i06_d03 0.929345926122951",
  "bbob-biobj_f10_i06_d05 0.937753565304302",
  "bbob-biobj_f10_i06_d10 0.916302417802770",
  "bbob-biobj_f10_i06_d20 0.804216801427507",
  "bbob-biobj_f10_i06_d40 0.690918114180113",
  "bbob-biobj_f10_i07_d02 0.972916090945292",
  "bbob-biobj_f10_i07_d03 0.971450633117566",
  "bbob-biobj_f10_i07_d05 0.941727082076548",
  "bbob-biobj_f10_i07_d10 0.817927199823897",
  "bbob-biobj_f10_i07_d20 0.763258585381718",
  "bbob-biobj_f10_i07_d40 0.739991394439648",
  "bbob-biobj_f10_i08_d02 0.926524440495943",
  "bbob-biobj_f10_i08_d03 0.950976461393930",
  "bbob-biobj_f10_i08_d05 0.975346535085332",
  "bbob-biobj_f10_i08_d10 0.916401249392711",
  "bbob-biobj_f10_i08_d20 0.857675602487971",
  "bbob-biobj_f10_i08_d40 0.775583712514456",
  "bbob-biobj_f10_i09_d02 0.663726926800968",
  "bbob-biobj_f10_i09_d03 0.879016548436657",
  "bbob-biobj_f10_i09_d05 0.942218870289438",
  "bbob-biobj_f10_i09_d10 0.904838192250101",
  "bbob-biobj_f10_i09_d20 0.792568176822578",
  "bbob-biobj_f10_i09_d40 0.722036310804938",
  "bbob-biobj_f10_i10_d02 0.909615354906003",
  "bbob-biobj_f10_i10_d03 0.950985467384464",
  "bbob-biobj_f10_i10_d05 0.937047585618269",
  "bbob-biobj_f10_i10_d10 0.894128956510904",
  "bbob-biobj_f10_i10_d20 0.748700702453785",
  "bbob-biobj_f10_i10_d40 0.532852626529976",
  "bbob-biobj_f10_i11_d02 1.0",
  "bbob-biobj_f10_i11_d03 1.0",
  "bbob-biobj_f10_i11_d05 1.0",
  "bbob-biobj_f10_i11_d10 1.0",
  "bbob-biobj_f10_i11_d20 1.0",
  "bbob-biobj_f10_i11_d40 1.0",
  "bbob-biobj_f10_i12_d02 1.0",
  "bbob-biobj_f10_i12_d03 1.0",
  "bbob-biobj_f10_i12_d05 1.0",
  "bbob-biobj_f10_i12_d10 1.0",
  "bbob-biobj_f10_i12_d20 1.0",
  "bbob-biobj_f10_i12_d40 1.0",
  "bbob-biobj_f10_i13_d02 1.0",
  "bbob-biobj_f10_i13_d03 1.0",
  "bbob-biobj_f10_i13_d05 1.0",
  "bbob-biobj_f10_i13_d10 1.0",
  "bbob-biobj_f10_i13_d20 1.0",
  "bbob-biobj_f10_i13_d40 1.0",
  "bbob-biobj_f10_i14_d02 1.0",
  "bbob-biobj_f10_i14_d03 1.0",
  "bbob-biobj_f10_i14_d05 1.0",
  "bbob-biobj_f10_i14_d10 1.0",
  "bbob-biobj_f10_i14_d20 1.0",
  "bbob-biobj_f10_i14_d40 1.0",
  "bbob-biobj_f10_i15_d02 1.0",
  "bbob-biobj_f10_i15_d03 1.0",
  "bbob-biobj_f10_i15_d05 1.0",
  "bbob-biobj_f10_i15_d10 1.0",
  "bbob-biobj_f10_i15_d20 1.0",
  "bbob-biobj_f10_i15_d40 1.0",
  "bbob-biobj_f11_i01_d02 0.823972812562388",
  "bbob-biobj_f11_i01_d03 0.878621203194964",
  "bbob-biobj_f11_i01_d05 0.812586648665059",
  "bbob-biobj_f11_i01_d10 0.836592516333072",
  "bbob-biobj_f11_i01_d20 0.836424820585753",
  "bbob-biobj_f11_i01_d40 0.826157745787494",
  "bbob-biobj_f11_i02_d02 0.834474640589775",
  "bbob-biobj_f11_i02_d03 0.833334234596160",
  "bbob-biobj_f11_i02_d05 0.813664713043024",
  "bbob-biobj_f11_i02_d10 0.829501419795512",
  "bbob-biobj_f11_i02_d20 0.835498021013514",
  "bbob-biobj_f11_i02_d40 0.836861505054914",
  "bbob-biobj_f11_i03_d02 0.817436951100827",
  "bbob-biobj_f11_i03_d03 0.827370208306986",
  "bbob-biobj_f11_i03_d05 0.841073303364040",
  "bbob-biobj_f11_i03_d10 0.821941232889153",
  "bbob-biobj_f11_i03_d20 0.835250205841700",
  "bbob-biobj_f11_i03_d40 0.842912564518251",
  "bbob-biobj_f11_i04_d02 0.883087616206635",
  "bbob-biobj_f11_i04_d03 0.841524279183524",
  "bbob-biobj_f11_i04_d05 0.886492170474548",
  "bbob-biobj_f11_i04_d10 0.834701874121709",
  "bbob-biobj_f11_i04_d20 0.838340761867027",
  "bbob-biobj_f11_i04_d40 0.836846910424672",
  "bbob-biobj_f11_i05_d02 0.849344297999467",
  "bbob-biobj_f11_i05_d03 0.775581024465445",
  "bbob-biobj_f11_i05_d05 0.834556160894165",
  "bbob-biobj_f11_i05_d10 0.840911958504972",
  "bbob-biobj_f11_i05_d20 0.841666619239648",
  "bbob-biobj_f11_i05_d40 0.833867420433639",
  "bbob-biobj_f11_i06_d02 0.826928090908244",
  "bbob-biobj_f11_i06_d03 0.829311542360003",
  "bbob-biobj_f11_i06_d05 0.835849754824295",
  "bbob-biobj_f11_i06_d10 0.834281888590491",
  "bbob-biobj_f11_i06_d20 0.835890818567694",
  "bbob-biobj_f11_i06_d40 0.833909224886551",
  "bbob-biobj_f11_i07_d02 0.827124524692875",
  "bbob-biobj_f11_i07_d03 0.834101026397339",
  "bbob-biobj_f11_i07_d05 0.822553859716167",
  "bbob-biobj_f11_i07_d10 0.828565235659249",
  "bbob-biobj_f11_i07_d20 0.847995795586526",
  "bbob-biobj_f11_i07_d40 0.839429981523613",
  "bbob-biobj_f11_i08_d02 0.816785490280523",
  "bbob-biobj_f11_i08_d03 0.828801608657967",
  "bbob-biobj_f11_i08_d05 0.821726221706212",
  "bbob-biobj_f11_i08_d10 0.837631789427020",
  "bbob-biobj_f11_i08_d20 0.842921662278686",
  "bbob-biobj_f11_i08_d40 0.840655475524800",
  "bbob-biobj_f11_i09_d02 0.832761545730916",
  "bbob-biobj_f11_i09_d03 0.824043534074746",
  "bbob-biobj_f11_i09_d05 0.792984808020167",
  "bbob-biobj_f11_i09_d10 0.824441637294302",
  "bbob-biobj_f11_i09_d20 0.829359805622782",
  "bbob-biobj_f11_i09_d40 0.826982642746262",
  "bbob-biobj_f11_i10_d02 0.826872158038815",
  "bbob-biobj_f11_i10_d03 0.815632322967258",
  "bbob-biobj_f11_i10_d05 0.813174586531673",
  "bbob-biobj_f11_i10_d10 0.845302354695332",
  "bbob-biobj_f11_i10_d20 0.827523794821044",
  "bbob-biobj_f11_i10_d40 0.834513234276812",
  "bbob-biobj_f11_i11_d02 1.0",
  "bbob-biobj_f11_i11_d03 1.0",
  "bbob-biobj_f11_i11_d05 1.0",
  "bbob-biobj_f11_i11_d10 1.0",
  "bbob-biobj_f11_i11_d20 1.0",
  "bbob-biobj_f11_i11_d40 1.0",
  "bbob-biobj_f11_i12_d02 1.0",
  "bbob-biobj_f11_i12_d03 1.0",
  "bbob-biobj_f11_i12_d05 1.0",
  "bbob-biobj_f11_i12_d10 1.0",
  "bbob-biobj_f11_i12_d20 1.0",
  "bbob-biobj_f11_i12_d40 1.0",
  "bbob-biobj_f11_i13_d02 1.0",
  "bbob-biobj_f11_i13_d03 1.0",
  "bbob-biobj_f11_i13_d05 1.0",
  "bbob-biobj_f11_i13_d10 1.0",
  "bbob-biobj_f11_i13_d20 1.0",
  "bbob-biobj_f11_i13_d40 1.0",
  "bbob-biobj_f11_i14_d02 1.0",
  "bbob-biobj_f11_i14_d03 1.0",
  "bbob-biobj_f11_i14_d05 1.0",
  "bbob-biobj_f11_i14_d10 1.0",
  "bbob-biobj_f11_i14_d20 1.0",
  "bbob-biobj_f11_i14_d40 1.0",
  "bbob-biobj_f11_i15_d02 1.0",
  "bbob-biobj_f11_i15_d03 1.0",
  "bbob-biobj_f11_i15_d05 1.0",
  "bbob-biobj_f11_i15_d10 1.0",
  "bbob-biobj_f11_i15_d20 1.0",
  "bbob-biobj_f11_i15_d40 1.0",
  "bbob-biobj_f12_i01_d02 0.981019021891034",
  "bbob-biobj_f12_i01_d03 0.997359054292220",
  "bbob-biobj_f12_i01_d05 0.999992980228967",
  "bbob-biobj_f12_i01_d10 0.997430774247223",
  "bbob-biobj_f12_i01_d20 0.999555509973294",
  "bbob-biobj_f12_i01_d40 0.999389239789896",
  "bbob-biobj_f12_i02_d02 0.999911394690186",
  "bbob-biobj_f12_i02_d03 0.999935184954457",
  "bbob-biobj_f12_i02_d05 0.999910225023882",
  "bbob-biobj_f12_i02_d10 0.999751444384452",
  "bbob-biobj_f12_i02_d20 0.999573550016330",
  "bbob-biobj_f12_i02_d40 0.999835569504230",
  "bbob-biobj_f12_i03_d02 0.999915740303757",
  "bbob-biobj_f12_i03_d03 0.999886885606420",
  "bbob-biobj_f12_i03_d05 0.947369433553171",
  "bbob-biobj_f12_i03_d10 0.999905015565585",
  "bbob-biobj_f12_i03_d20 0.999773283216776",
  "bbob-biobj_f12_i03_d40 0.999807886346771",
  "bbob-biobj_f12_i04_d02 0.972347947492247",
  "bbob-biobj_f12_i04_d03 0.934336745551181",
  "bbob-biobj_f12_i04_d05 0.973688344818477",
  "bbob-biobj_f12_i04_d10 0.999926003977452",
  "bbob-biobj_f12_i04_d20 0.999900680810457",
  "bbob-biobj_f12_i04_d40 0.999665196282814",
  "bbob-biobj_f12_i05_d02 0.908760849106752",
  "bbob-biobj_f12_i05_d03 0.934983963630235",
  "bbob-biobj_f12_i05_d05 0.999480774733750",
  "bbob-biobj_f12_i05_d10 0.999713953626639",
  "bbob-biobj_f12_i05_d20 0.999230870967443",
  "bbob-biobj_f12_i05_d40 0.995378202120478",
  "bbob-biobj_f12_i06_d02 0.951004550116135",
  "bbob-biobj_f12_i06_d03 0.994674719769856",
  "bbob-biobj_f12_i06_d05 0.999941998845874",
  "bbob-biobj_f12_i06_d10 0.998789935943491",
  "bbob-biobj_f12_i06_d20 0.999917048335107",
  "bbob-biobj_f12_i06_d40 0.998885474175385",
  "bbob-biobj_f12_i07_d02 0.999977426010364",
  "bbob-biobj_f12_i07_d03 0.999953601829309",
  "bbob-biobj_f12_i07_d05 0.969731923038145",
  "bbob-biobj_f12_i07_d10 0.999958334143000",
  "bbob-biobj_f12_i07_d20 0.999849852199318",
  "bbob-biobj_f12_i07_d40 0.999855587362279",
  "bbob-biobj_f12_i08_d02 0.995578051763076",
  "bbob-biobj_f12_i08_d03 0.848219286038717",
  "bbob-biobj_f12_i08_d05 0.999934633214172",
  "bbob-biobj_f12_i08_d10 0.999745727463896",
  "bbob-biobj_f12_i08_d20 0.999509720168614",
  "bbob-biobj_f12_i08_d40 0.994977499522366",
  "bbob-biobj_f12_i09_d02 0.927643402901094",
  "bbob-biobj_f12_i09_d03 0.999275263954279",
  "bbob-biobj_f12_i09_d05 0.999973997783679",
  "bbob-biobj_f12_i09_d10 0.999920783244525",
  "bbob-biobj_f12_i09_d20 0.999724134576184",
  "bbob-biobj_f12_i09_d40 0.998416448289325",
  "bbob-biobj_f12_i10_d02 0.865823542233124",
  "bbob-biobj_f12_i10_d03 0.999979025107695",
  "bbob-biobj_f12_i10_d05 0.999720439186375",
  "bbob-biobj_f12_i10_d10 0.998457916849131",
  "bbob-biobj_f12_i10_d20 0.998159410929698",
  "bbob-biobj_f12_i10_d40 0.999763956776766",
  "bbob-biobj_f12_i11_d02 1.0",
  "bbob-biobj_f12_i11_d03 1.0",
  "bbob-biobj_f12_i11_d05 1.0",
  "bbob-biobj_f12_i11_d10 1.0",
  "bbob-biobj_f12_i11_d20 1.0",
  "bbob-biobj_f12_i11_d40 1.0",
  "bbob-biobj_f12_i12_d02 1.0",
  "bbob-biobj_f12_i12_d03 1.0",
  "bbob-biobj_f12_i12_d05 1.0",
  "bbob-biobj_f12_i12_d10 1.0",
  "bbob-biobj_f12_i12_d20 1.0",
  "bbob-biobj_f12_i12_d40 1.0",
  "bbob-biobj_f12_i13_d02 1.0",
  "bbob-biobj_f12_i13_d03 1.0",
  "bbob-biobj_f12_i13_d05 1.0",
  "bbob-biobj_f12_i13_d10 1.0",
  "bbob-biobj_f12_i13_d20 1.0",
  "bbob-biobj_f12_i13_d40 1.0",
  "bbob-biobj_f12_i14_d02 1.0",
  "bbob-biobj_f12_i14_d03 1.0",
  "bbob-biobj_f12_i14_d05 1.0",
  "bbob-biobj_f12_i14_d10 1.0",
  "bbob-biobj_f12_i14_d20 1.0",
  "bbob-biobj_f12_i14_d40 1.0",
  "bbob-biobj_f12_i15_d02 1.0",
  "bbob-biobj_f12_i15_d03 1.0",
  "bbob-biobj_f12_i15_d05 1.0",
  "bbob-biobj_f12_i15_d10 1.0",
  "bbob-biobj_f12_i15_d20 1.0",
  "bbob-biobj_f12_i15_d40 1.0",
  "bbob-biobj_f13_i01_d02 0.944888481495913",
  "bbob-biobj_f13_i01_d03 0.999495787566523",
  "bbob-biobj_f13_i01_d05 0.999803029691490",
  "bbob-biobj_f13_i01_d10 0.999291777318943",
  "bbob-biobj_f13_i01_d20 0.950020375722517",
  "bbob-biobj_f13_i01_d40 0.988891641941712",
  "bbob-biobj_f13_i02_d02 0.999759637668710",
  "bbob-biobj_f13_i02_d03 0.998700086450386",
  "bbob-biobj_f13_i02_d05 0.998548467880571",
  "bbob-biobj_f13_i02_d10 0.999205394321604",
  "bbob-biobj_f13_i02_d20 0.970036413257736",
  "bbob-biobj_f13_i02_d40 0.990113397448570",
  "bbob-biobj_f13_i03_d02 0.999951136530969",
  "bbob-biobj_f13_i03_d03 0.962146148205073",
  "bbob-biobj_f13_i03_d05 0.999819062980181",
  "bbob-biobj_f13_i03_d10 0.999219213475386",
  "bbob-biobj_f13_i03_d20 0.945700443762299",
  "bbob-biobj_f13_i03_d40 0.991648066114144",
  "bbob-biobj_f13_i04_d02 0.999963191976562",
  "bbob-biobj_f13_i04_d03 0.999978301764668",
  "bbob-biobj_f13_i04_d05 0.999810945856148",
  "bbob-biobj_f13_i04_d10 0.991558939642803",
  "bbob-biobj_f13_i04_d20 0.997758867066474",
  "bbob-biobj_f13_i04_d40 0.986681645879782",
  "bbob-biobj_f13_i05_d02 0.999818304544863",
  "bbob-biobj_f13_i05_d03 0.999920718261273",
  "bbob-biobj_f13_i05_d05 0.999370197155656",
  "bbob-biobj_f13_i05_d10 0.994191582583059",
  "bbob-biobj_f13_i05_d20 0.998411773863768",
  "bbob-biobj_f13_i05_d40 0.986683196829484",
  "bbob-biobj_f13_i06_d02 0.999786254118461",
  "bbob-biobj_f13_i06_d03 0.999444869224228",
  "bbob-biobj_f13_i06_d05 0.996137458986228",
  "bbob-biobj_f13_i06_d10 0.999373545789059",
  "bbob-biobj_f13_i06_d20 0.971364486469867",
  "bbob-biobj_f13_i06_d40 0.976307325115025",
  "bbob-biobj_f13_i07_d02 0.998281928552673",
  "bbob-biobj_f13_i07_d03 0.999947731590753",
  "bbob-biobj_f13_i07_d05 0.957830089646704",
  "bbob-biobj_f13_i07_d10 0.997028847143220",
  "bbob-biobj_f13_i07_d20 0.986328888917346",
  "bbob-biobj_f13_i07_d40 0.993096262654648",
  "bbob-biobj_f13_i08_d02 0.986263129922459",
  "bbob-biobj_f13_i08_d03 0.987267926473285",
  "bbob-biobj_f13_i08_d05 0.998553113394840",
  "bbob-biobj_f13_i08_d10 0.997550762872402",
  "bbob-biobj_f13_i08_d20 0.992896154059295",
  "bbob-biobj_f13_i08_d40 0.993156766863208",
  "bbob-biobj_f13_i09_d02 0.999837952938782",
  "bbob-biobj_f13_i09_d03 0.999565585857190",
  "bbob-biobj_f13_i09_d05 0.993083126723309",
  "bbob-biobj_f13_i09_d10 0.996849023496994",
  "bbob-biobj_f13_i09_d20 0.998252533454138",
  "bbob-biobj_f13_i09_d40 0.985232252457824",
  "bbob-biobj_f13_i10_d02 0.999981682852072",
  "bbob-biobj_f13_i10_d03 0.998118852374587",
  "bbob-biobj_f13_i10_d05 0.993827383263134",
  "bbob-biobj_f13_i10_d10 0.999188102145963",
  "bbob-biobj_f13_i10_d20 0.999301545811323",
  "bbob-biobj_f13_i10_d40 0.988746713126202",
  "bbob-biobj_f13_i11_d02 1.0",
  "bbob-biobj_f13_i11_d03 1.0",
  "bbob-biobj_f13_i11_d05 1.0",
  "bbob-biobj_f13_i11_d10 1.0",
  "bbob-biobj_f13_i11_d20 1.0",
  "bbob-biobj_f13_i11_d40 1.0",
  "bbob-biobj_f13_i12_d02 1.0",
  "bbob-biobj_f13_i12_d03 1.0",
  "bbob-biobj_f13_i12_d05 1.0",
  "bbob-biobj_f13_i12_d10 1.0",
  "bbob-biobj_f13_i12_d20 1.0",
  "bbob-biobj_f13_i12_d40 1.0",
  "bbob-biobj_f13_i13_d02 1.0",
  "bbob-biobj_f13_i13_d03 1.0",
  "bbob-biobj_f13_i13_d05 1.0",
  "bbob-biobj_f13_i13_d10 1.0",
  "bbob-biobj_f13_i13_d20 1.0",
  "bbob-biobj_f13_i13_d40 1.0",
  "bbob-biobj_f13_i14_d02 1.0",
  "bbob-biobj_f13_i14_d03 1.0",
  "bbob-biobj_f13_i14_d05 1.0",
  "bbob-biobj_f13_i14_d10 1.0",
  "bbob-biobj_f13_i14_d20 1.0",
  "bbob-biobj_f13_i14_d40 1.0",
  "bbob-biobj_f13_i15_d02 1.0",
  "bbob-biobj_f13_i15_d03 1.0",
  "bbob-biobj_f13_i15_d05 1.0",
  "bbob-biobj_f13_i15_d10 1.0",
  "bbob-biobj_f13_i15_d20 1.0",
  "bbob-biobj_f13_i15_d40 1.0",
  "bbob-biobj_f14_i01_d02 0.912474502758044",
  "bbob-biobj_f14_i01_d03 0.832552981303613",
  "bbob-biobj_f14_i01_d05 0.935814561082043",
  "bbob-biobj_f14_i01_d10 0.856132946104561",
  "bbob-biobj_f14_i01_d20 0.838350394077427",
  "bbob-biobj_f14_i01_d40 0.858947036385989",
  "bbob-biobj_f14_i02_d02 0.997754601564265",
  "bbob-biobj_f14_i02_d03 0.996014288588860",
  "bbob-biobj_f14_i02_d05 0.842217695273373",
  "bbob-biobj_f14_i02_d10 0.880401726227052",
  "bbob-biobj_f14_i02_d20 0.909312507872731",
  "bbob-biobj_f14_i02_d40 0.872697649399011",
  "bbob-biobj_f14_i03_d02 0.966433483456690",
  "bbob-biobj_f14_i03_d03 0.983421791352917",
  "bbob-biobj_f14_i03_d05 0.792220674897986",
  "bbob-biobj_f14_i03_d10 0.931296898791649",
  "bbob-biobj_f14_i03_d20 0.918558442682632",
  "bbob-biobj_f14_i03_d40 0.866794368082230",
  "bbob-biobj_f14_i04_d02 0.982900075173571",
  "bbob-biobj_f14_i04_d03 0.999128374327137",
  "bbob-biobj_f14_i04_d05 0.854119062144995",
  "bbob-biobj_f14_i04_d10 0.871684724976058",
  "bbob-biobj_f14_i04_d20 0.902486214917498",
  "bbob-biobj_f14_i04_d40 0.905428785220358",
  "bbob-biobj_f14_i05_d02 0.987028385153950",
  "bbob-biobj_f14_i05_d03 0.986703979079455",
  "bbob-biobj_f14_i05_d05 0.966176301186096",
  "bbob-biobj_f14_i05_d10 0.940533252230839",
  "bbob-biobj_f14_i05_d20 0.885673184125202",
  "bbob-biobj_f14_i05_d40 0.880595320603629",
  "bbob-biobj_f14_i06_d02 0.989626579264181",
  "bbob-biobj_f14_i06_d03 0.967890488352312",
  "bbob-biobj_f14_i06_d05 0.951167651281388",
  "bbob-biobj_f14_i06_d10 0.969713179805528",
  "bbob-biobj_f14_i06_d20 0.877598942889784",
  "bbob-biobj_f14_i06_d40 0.884063329838707",
  "bbob-biobj_f14_i07_d02 0.888026642624433",
  "bbob-biobj_f14_i07_d03 0.994848097170878",
  "bbob-biobj_f14_i07_d05 0.993474418345262",
  "bbob-biobj_f14_i07_d10 0.918352873191297",
  "bbob-biobj_f14_i07_d20 0.846020394087209",
  "bbob-biobj_f14_i07_d40 0.886227765574340",
  "bbob-biobj_f14_i08_d02 0.785490555803731",
  "bbob-biobj_f14_i08_d03 0.812199702852755",
  "bbob-biobj_f14_i08_d05 0.963234245077621",
  "bbob-biobj_f14_i08_d10 0.837741778995617",
  "bbob-biobj_f14_i08_d20 0.864659883079803",
  "bbob-biobj_f14_i08_d40 0.888056073328803",
  "bbob-biobj_f14_i09_d02 0.999595374320139",
  "bbob-biobj_f14_i09_d03 0.836230878758369",
  "bbob-biobj_f14_i09_d05 0.828145060746739",
  "bbob-biobj_f14_i09_d10 0.903161047421889",
  "bbob-biobj_f14_i09_d20 0.900002248950141",
  "bbob-biobj_f14_i09_d40 0.862656054750155",
  "bbob-biobj_f14_i10_d02 0.980393179492728",
  "bbob-biobj_f14_i10_d03 0.871033820732873",
  "bbob-biobj_f14_i10_d05 0.987722998698588",
  "bbob-biobj_f14_i10_d10 0.804358216871116",
  "bbob-biobj_f14_i10_d20 0.948265232823403",
  "bbob-biobj_f14_i10_d40 0.879075253366757",
  "bbob-biobj_f14_i11_d02 1.0",
  "bbob-biobj_f14_i11_d03 1.0",
  "bbob-biobj_f14_i11_d05 1.0",
  "bbob-biobj_f14_i11_d10 1.0",
  "bbob-biobj_f14_i11_d20 1.0",
  "bbob-biobj_f14_i11_d40 1.0",
  "bbob-biobj_f14_i12_d02 1.0",
  "bbob-biobj_f14_i12_d03 1.0",
  "bbob-biobj_f14_i12_d05 1.0",
  "bbob-biobj_f14_i12_d10 1.0",
  "bbob-biobj_f14_i12_d20 1.0",
  "bbob-biobj_f14_i12_d40 1.0",
  "bbob-biobj_f14_i13_d02 1.0",
  "bbob-biobj_f14_i13_d03 1.0",
  "bbob-biobj_f14_i13_d05 1.0",
  "bbob-biobj_f14_i13_d10 1.0",
  "bbob-biobj_f14_i13_d20 1.0",
  "bbob-biobj_f14_i13_d40 1.0",
  "bbob-biobj_f14_i14_d02 1.0",
  "bbob-biobj_f14_i14_d03 1.0",
  "bbob-biobj_f14_i14_d05 1.0",
  "bbob-biobj_f14_i14_d10 1.0",
  "bbob-biobj_f14_i14_d20 1.0",
  "bbob-biobj_f14_i14_d40 1.0",
  "bbob-biobj_f14_i15_d02 1.0",
  "bbob-biobj_f14_i15_d03 1.0",
  "bbob-biobj_f14_i15_d05 1.0",
  "bbob-biobj_f14_i15_d10 1.0",
  "bbob-biobj_f14_i15_d20 1.0",
  "bbob-biobj_f14_i15_d40 1.0",
  "bbob-biobj_f15_i01_d02 0.978329958464595",
  "bbob-biobj_f15_i01_d03 0.928763486090370",
  "bbob-biobj_f15_i01_d05 0.948217515777184",
  "bbob-biobj_f15_i01_d10 0.965014252434939",
  "bbob-biobj_f15_i01_d20 0.988172010920960",
  "bbob-biobj_f15_i01_d40 0.979685330107244",
  "bbob-biobj_f15_i02_d02 0.941436984787556",
  "bbob-biobj_f15_i02_d03 0.954422322416083",
  "bbob-biobj_f15_i02_d05 0.979714682662946",
  "bbob-biobj_f15_i02_d10 0.992135269377142",
  "bbob-biobj_f15_i02_d20 0.957738383640000",
  "bbob-biobj_f15_i02_d40 0.979390495405073",
  "bbob-biobj_f15_i03_d02 0.998672057695252",
  "bbob-biobj_f15_i03_d03 0.994036428905887",
  "bbob-biobj_f15_i03_d05 0.980685118388359",
  "bbob-biobj_f15_i03_d10 0.991363095374915",
  "bbob-biobj_f15_i03_d20 0.982822742987328",
  "bbob-biobj_f15_i03_d40 0.980720242095878",
  "bbob-biobj_f15_i04_d02 0.825079630387599",
  "bbob-biobj_f15_i04_d03 0.975014914860254",
  "bbob-biobj_f15_i04_d05 0.944764896851763",
  "bbob-biobj_f15_i04_d10 0.994605465945425",
  "bbob-biobj_f15_i04_d20 0.973604110003641",
  "bbob-biobj_f15_i04_d40 0.993852848505890",
  "bbob-biobj_f15_i05_d02 0.988337565201807",
  "bbob-biobj_f15_i05_d03 0.932553406858140",
  "bbob-biobj_f15_i05_d05 0.867422911031452",
  "bbob-biobj_f15_i05_d10 0.985327846602946",
  "bbob-biobj_f15_i05_d20 0.988082796248327",
  "bbob-biobj_f15_i05_d40 0.992448395031419",
  "bbob-biobj_f15_i06_d02 0.969099569124418",
  "bbob-biobj_f15_i06_d03 0.955415507003273",
  "bbob-biobj_f15_i06_d05 0.975696462708374",
  "bbob-biobj_f15_i06_d10 0.985311334071489",
  "bbob-biobj_f15_i06_d20 0.985018339453307",
  "bbob-biobj_f15_i06_d40 0.977396751957974",
  "bbob-biobj_f15_i07_d02 0.982639481792181",
  "bbob-biobj_f15_i07_d03 0.904575831150473",
  "bbob-biobj_f15_i07_d05 0.993550969605167",
  "bbob-biobj_f15_i07_d10 0.956852344383798",
  "bbob-biobj_f15_i07_d20 0.977291264392811",
  "bbob-biobj_f15_i07_d40 0.982446927782356",
  "bbob-biobj_f15_i08_d02 0.925538670864120",
  "bbob-biobj_f15_i08_d03 0.886713197832339",
  "bbob-biobj_f15_i08_d05 0.977590338126398",
  "bbob-biobj_f15_i08_d10 0.987530968987965",
  "bbob-biobj_f15_i08_d20 0.972980219387174",
  "bbob-biobj_f15_i08_d40 0.987718098552715",
  "bbob-biobj_f15_i09_d02 0.985677211419677",
  "bbob-biobj_f15_i09_d03 0.988758882716527",
  "bbob-biobj_f15_i09_d05 0.932574336998797",
  "bbob-biobj_f15_i09_d10 0.974249913721194",
  "bbob-biobj_f15_i09_d20 0.951580788703233",
  "bbob-biobj_f15_i09_d40 0.981177296001791",
  "bbob-biobj_f15_i10_d02 0.932483359039571",
  "bbob-biobj_f15_i10_d03 0.760369148662153",
  "bbob-biobj_f15_i10_d05 0.962419327722367",
  "bbob-biobj_f15_i10_d10 0.968517586729314",
  "bbob-biobj_f15_i10_d20 0.983982954449852",
  "bbob-biobj_f15_i10_d40 0.989503840372814",
  "bbob-biobj_f15_i11_d02 1.0",
  "bbob-biobj_f15_i11_d03 1.0",
  "bbob-biobj_f15_i11_d05 1.0",
  "bbob-biobj_f15_i11_d10 1.0",
  "bbob-biobj_f15_i11_d20 1.0",
  "bbob-biobj_f15_i11_d40 1.0",
  "bbob-biobj_f15_i12_d02 1.0",
  "bbob-biobj_f15_i12_d03 1.0",
  "bbob-biobj_f15_i12_d05 1.0",
  "bbob-biobj_f15_i12_d10 1.0",
  "bbob-biobj_f15_i12_d20 1.0",
  "bbob-biobj_f15_i12_d40 1.0",
  "bbob-biobj_f15_i13_d02 1.0",
  "bbob-biobj_f15_i13_d03 1.0",
  "bbob-biobj_f15_i13_d05 1.0",
  "bbob-biobj_f15_i13_d10 1.0",
  "bbob-biobj_f15_i13_d20 1.0",
  "bbob-biobj_f15_i13_d40 1.0",
  "bbob-biobj_f15_i14_d02 1.0",
  "bbob-biobj_f15_i14_d03 1.0",
  "bbob-biobj_f15_i14_d05 1.0",
  "bbob-biobj_f15_i14_d10 1.0",
  "bbob-biobj_f15_i14_d20 1.0",
  "bbob-biobj_f15_i14_d40 1.0",
  "bbob-biobj_f15_i15_d02 1.0",
  "bbob-biobj_f15_i15_d03 1.0",
  "bbob-biobj_f15_i15_d05 1.0",
  "bbob-biobj_f15_i15_d10 1.0",
  "bbob-biobj_f15_i15_d20 1.0",
  "bbob-biobj_f15_i15_d40 1.0",
  "bbob-biobj_f16_i01_d02 0.981136805943563",
  "bbob-biobj_f16_i01_d03 0.999116528856403",
  "bbob-biobj_f16_i01_d05 0.991930799152053",
  "bbob-biobj_f16_i01_d10 0.985572038817464",
  "bbob-biobj_f16_i01_d20 0.975714609419363",
  "bbob-biobj_f16_i01_d40 0.956990166830896",
  "bbob-biobj_f16_i02_d02 0.965606293624667",
  "bbob-biobj_f16_i02_d03 0.934172295812466",
  "bbob-biobj_f16_i02_d05 0.954688360663971",
  "bbob-biobj_f16_i02_d10 0.962101153358912",
  "bbob-biobj_f16_i02_d20 0.979237967235992",
  "bbob-biobj_f16_i02_d40 0.958279379670396",
  "bbob-biobj_f16_i03_d02 0.959401186688791",
  "bbob-biobj_f16_i03_d03 0.943745810462135",
  "bbob-biobj_f16_i03_d05 0.990038348199901",
  "bbob-biobj_f16_i03_d10 0.968591811327548",
  "bbob-biobj_f16_i03_d20 0.989124335582215",
  "bbob-biobj_f16_i03_d40 0.970723944014379",
  "bbob-biobj_f16_i04_d02 0.995345570126699",
  "bbob-biobj_f16_i04_d03 0.997825564404976",
  "bbob-biobj_f16_i04_d05 0.984839714537455",
  "bbob-biobj_f16_i04_d10 0.985360159508032",
  "bbob-biobj_f16_i04_d20 0.980330681207284",
  "bbob-biobj_f16_i04_d40 0.966902504082311",
  "bbob-biobj_f16_i05_d02 0.999043230290520",
  "bbob-biobj_f16_i05_d03 0.953343574406745",
  "bbob-biobj_f16_i05_d05 0.995257304189170",
  "bbob-biobj_f16_i05_d10 0.974600005218726",
  "bbob-biobj_f16_i05_d20 0.978627892686058",
  "bbob-biobj_f16_i05_d40 0.981349905490900",
  "bbob-biobj_f16_i06_d02 0.139769187387063",
  "bbob-biobj_f16_i06_d03 0.932548729932145",
  "bbob-biobj_f16_i06_d05 0.966456880272056",
  "bbob-biobj_f16_i06_d10 0.978734131874224",
  "bbob-biobj_f16_i06_d20 0.984064160757473",
  "bbob-biobj_f16_i06_d40 0.936638336407728",
  "bbob-biobj_f16_i07_d02 0.997713548522536",
  "bbob-biobj_f16_i07_d03 0.955359679744685",
  "bbob-biobj_f16_i07_d05 0.994067502225735",
  "bbob-biobj_f16_i07_d10 0.954136637460491",
  "bbob-biobj_f16_i07_d20 0.972292039636678",
  "bbob-biobj_f16_i07_d40 0.946972200685131",
  "bbob-biobj_f16_i08_d02 0.968081586517578",
  "bbob-biobj_f16_i08_d03 0.985370098786813",
  "bbob-biobj_f16_i08_d05 0.982997262020142",
  "bbob-biobj_f16_i08_d10 0.983981918026254",
  "bbob-biobj_f16_i08_d20 0.992281167041330",
  "bbob-biobj_f16_i08_d40 0.906801714715668",
  "bbob-biobj_f16_i09_d02 0.971216964728232",
  "bbob-biobj_f16_i09_d03 0.973148118267147",
  "bbob-biobj_f16_i09_d05 0.975600577622356",
  "bbob-biobj_f16_i09_d10 0.993920099434157",
  "bbob-biobj_f16_i09_d20 0.980655093439768",
  "bbob-biobj_f16_i09_d40 0.964135748091886",
  "bbob-biobj_f16_i10_d02 0.928290354838167",
  "bbob-biobj_f16_i10_d03 0.992105778427930",
  "bbob-biobj_f16_i10_d05 0.955140928713979",
  "bbob-biobj_f16_i10_d10 0.993839635641078",
  "bbob-biobj_f16_i10_d20 0.985730027740502",
  "bbob-biobj_f16_i10_d40 0.949573101002550",
  "bbob-biobj_f16_i11_d02 1.0",
  "bbob-biobj_f16_i11_d03 1.0",
  "bbob-biobj_f16_i11_d05 1.0",
  "bbob-biobj_f16_i11_d10 1.0",
  "bbob-biobj_f16_i11_d20 1.0",
  "bbob-biobj_f16_i11_d40 1.0",
  "bbob-biobj_f16_i12_d02 1.0",
  "bbob-biobj_f16_i12_d03 1.0",
  "bbob-biobj_f16_i12_d05 1.0",
  "bbob-biobj_f16_i12_d10 1.0",
  "bbob-biobj_f16_i12_d20 1.0",
  "bbob-biobj_f16_i12_d40 1.0",
  "bbob-biobj_f16_i13_d02 1.0",
  "bbob-biobj_f16_i13_d03 1.0",
  "bbob-biobj_f16_i13_d05 1.0",
  "bbob-biobj_f16_i13_d10 1.0",
  "bbob-biobj_f16_i13_d20 1.0",
  "bbob-biobj_f16_i13_d40 1.0",
  "bbob-biobj_f16_i14_d02 1.0",
  "bbob-biobj_f16_i14_d03 1.0",
  "bbob-biobj_f16_i14_d05 1.0",
  "bbob-biobj_f16_i14_d10 1.0",
  "bbob-biobj_f16_i14_d20 1.0",
  "bbob-biobj_f16_i14_d40 1.0",
  "bbob-biobj_f16_i15_d02 1.0",
  "bbob-biobj_f16_i15_d03 1.0",
  "bbob-biobj_f16_i15_d05 1.0",
  "bbob-biobj_f16_i15_d10 1.0",
  "bbob-biobj_f16_i15_d20 1.0",
  "bbob-biobj_f16_i15_d40 1.0",
  "bbob-biobj_f17_i01_d02 0.979958736285246",
  "bbob-biobj_f17_i01_d03 0.899963827746614",
  "bbob-biobj_f17_i01_d05 0.980383162441116",
  "bbob-biobj_f17_i01_d10 0.991667904464048",
  "bbob-biobj_f17_i01_d20 0.976040274918623",
  "bbob-biobj_f17_i01_d40 0.977329603108451",
  "bbob-biobj_f17_i02_d02 0.942990267586704",
  "bbob-biobj_f17_i02_d03 0.931457132513428",
  "bbob-biobj_f17_i02_d05 0.971736847883754",
  "bbob-biobj_f17_i02_d10 0.982592256494084",
  "bbob-biobj_f17_i02_d20 0.977069573194543",
  "bbob-biobj_f17_i02_d40 0.977917762018740",
  "bbob-biobj_f17_i03_d02 0.941726980158077",
  "bbob-biobj_f17_i03_d03 0.956417557572814",
  "bbob-biobj_f17_i03_d05 0.967908237120145",
  "bbob-biobj_f17_i03_d10 0.990870743467526",
  "bbob-biobj_f17_i03_d20 0.988448519986969",
  "bbob-biobj_f17_i03_d40 0.956758020414636",
  "bbob-biobj_f17_i04_d02 0.766767768354889",
  "bbob-biobj_f17_i04_d03 0.861040742950137",
  "bbob-biobj_f17_i04_d05 0.995694983895964",
  "bbob-biobj_f17_i04_d10 0.993525252835279",
  "bbob-biobj_f17_i04_d20 0.994425581013768",
  "bbob-biobj_f17_i04_d40 0.987502438468208",
  "bbob-biobj_f17_i05_d02 0.940686879206378",
  "bbob-biobj_f17_i05_d03 0.855795658694083",
  "bbob-biobj_f17_i05_d05 0.989699773758120",
  "bbob-biobj_f17_i05_d10 0.988141216910086",
  "bbob-biobj_f17_i05_d20 0.998383309638694",
  "bbob-biobj_f17_i05_d40 0.970878934399012",
  "bbob-biobj_f17_i06_d02 0.987721346183989",
  "bbob-biobj_f17_i06_d03 0.933842682645463",
  "bbob-biobj_f17_i06_d05 0.995114738748214",
  "bbob-biobj_f17_i06_d10 0.988337346516209",
  "bbob-biobj_f17_i06_d20 0.986706062517203",
  "bbob-biobj_f17_i06_d40 0.929788434606291",
  "bbob-biobj_f17_i07_d02 0.996488999370768",
  "bbob-biobj_f17_i07_d03 0.955505256269616",
  "bbob-biobj_f17_i07_d05 0.997336955837073",
  "bbob-biobj_f17_i07_d10 0.994446054246338",
  "bbob-biobj_f17_i07_d20 0.998927058918791",
  "bbob-biobj_f17_i07_d40 0.960619879218413",
  "bbob-biobj_f17_i08_d02 0.889890847545346",
  "bbob-biobj_f17_i08_d03 0.847970499485007",
  "bbob-biobj_f17_i08_d05 0.935311368226691",
  "bbob-biobj_f17_i08_d10 0.992365339808906",
  "bbob-biobj_f17_i08_d20 0.982187603171574",
  "bbob-biobj_f17_i08_d40 0.946639360992838",
  "bbob-biobj_f17_i09_d02 0.939038516134587",
  "bbob-biobj_f17_i09_d03 0.986156728736634",
  "bbob-biobj_f17_i09_d05 0.953446290144602",
  "bbob-biobj_f17_i09_d10 0.991419467988624",
  "bbob-biobj_f17_i09_d20 0.994472378706110",
  "bbob-biobj_f17_i09_d40 0.919518078858342",
  "bbob-biobj_f17_i10_d02 0.998456596594862",
  "bbob-biobj_f17_i10_d03 0.954549550539068",
  "bbob-biobj_f17_i10_d05 0.982859786689298",
  "bbob-biobj_f17_i10_d10 0.994326972525940",
  "bbob-biobj_f17_i10_d20 0.989077431151756",
  "bbob-biobj_f17_i10_d40 0.946069625906736",
  "bbob-biobj_f17_i11_d02 1.0",
  "bbob-biobj_f17_i11_d03 1.0",
  "bbob-biobj_f17_i11_d05 1.0",
  "bbob-biobj_f17_i11_d10 1.0",
  "bbob-biobj_f17_i11_d20 1.0",
  "bbob-biobj_f17_i11_d40 1.0",
  "bbob-biobj_f17_i12_d02 1.0",
  "bbob-biobj_f17_i12_d03 1.0",
  "bbob-biobj_f17_i12_d05 1.0",
  "bbob-biobj_f17_i12_d10 1.0",
  "bbob-biobj_f17_i12_d20 1.0",
  "bbob-biobj_f17_i12_d40 1.0",
  "bbob-biobj_f17_i13_d02 1.0",
  "bbob-biobj_f17_i13_d03 1.0",
  "bbob-biobj_f17_i13_d05 1.0",
  "bbob-biobj_f17_i13_d10 1.0",
  "bbob-biobj_f17_i13_d20 1.0",
  "bbob-biobj_f17_i13_d40 1.0",
  "bbob-biobj_f17_i14_d02 1.0",
  "bbob-biobj_f17_i14_d03 1.0",
  "bbob-biobj_f17_i14_d05 1.0",
  "bbob-biobj_f17_i14_d10 1.0",
  "bbob-biobj_f17_i14_d20 1.0",
  "bbob-biobj_f17_i14_d40 1.0",
  "bbob-biobj_f17_i15_d02 1.0",
  "bbob-biobj_f17_i15_d03 1.0",
  "bbob-biobj_f17_i15_d05 1.0",
  "bbob-biobj_f17_i15_d10 1.0",
  "bbob-biobj_f17_i15_d20 1.0",
  "bbob-biobj_f17_i15_d40 1.0",
  "bbob-biobj_f18_i01_d02 0.969204955463581",
  "bbob-biobj_f18_i01_d03 0.998688677345057",
  "bbob-biobj_f18_i01_d05 0.998492990918753",
  "bbob-biobj_f18_i01_d10 0.992631755064189",
  "bbob-biobj_f18_i01_d20 0.947928180148035",
  "bbob-biobj_f18_i01_d40 0.946549388502231",
  "bbob-biobj_f18_i02_d02 0.953409672783533",
  "bbob-biobj_f18_i02_d03 0.993777613644610",
  "bbob-biobj_f18_i02_d05 0.991743086947726",
  "bbob-biobj_f18_i02_d10 0.962770435464250",
  "bbob-biobj_f18_i02_d20 0.950150835780217",
  "bbob-biobj_f18_i02_d40 0.985237661051139",
  "bbob-biobj_f18_i03_d02 0.999403474100123",
  "bbob-biobj_f18_i03_d03 0.999304357758777",
  "bbob-biobj_f18_i03_d05 0.946583934581978",
  "bbob-biobj_f18_i03_d10 0.992475805892152",
  "bbob-biobj_f18_i03_d20 0.960674247077403",
  "bbob-biobj_f18_i03_d40 0.977803190233087",
  "bbob-biobj_f18_i04_d02 0.990015009660456",
  "bbob-biobj_f18_i04_d03 0.998331133141258",
  "bbob-biobj_f18_i04_d05 0.973769141045947",
  "bbob-biobj_f18_i04_d10 0.950033214296972",
  "bbob-biobj_f18_i04_d20 0.933611850388737",
  "bbob-biobj_f18_i04_d40 0.983210373781807",
  "bbob-biobj_f18_i05_d02 0.999935348038347",
  "bbob-biobj_f18_i05_d03 0.975931995071483",
  "bbob-biobj_f18_i05_d05 0.941223676186121",
  "bbob-biobj_f18_i05_d10 0.954466530642470",
  "bbob-biobj_f18_i05_d20 0.975454397797652",
  "bbob-biobj_f18_i05_d40 0.972762716762444",
  "bbob-biobj_f18_i06_d02 0.999890664800389",
  "bbob-biobj_f18_i06_d03 0.951984261631391",
  "bbob-biobj_f18_i06_d05 0.972237437217906",
  "bbob-biobj_f18_i06_d10 0.983832662814702",
  "bbob-biobj_f18_i06_d20 0.988509799002198",
  "bbob-biobj_f18_i06_d40 0.943847382150639",
  "bbob-biobj_f18_i07_d02 0.999722916185884",
  "bbob-biobj_f18_i07_d03 0.939354361285139",
  "bbob-biobj_f18_i07_d05 0.973505022362569",
  "bbob-biobj_f18_i07_d10 0.956653936959765",
  "bbob-biobj_f18_i07_d20 0.975130531493727",
  "bbob-biobj_f18_i07_d40 0.963260507409640",
  "bbob-biobj_f18_i08_d02 0.979522633177982",
  "bbob-biobj_f18_i08_d03 0.983582859809175",
  "bbob-biobj_f18_i08_d05 0.972341214517837",
  "bbob-biobj_f18_i08_d10 0.943622394038077",
  "bbob-biobj_f18_i08_d20 0.985012761018232",
  "bbob-biobj_f18_i08_d40 0.967820102584116",
  "bbob-biobj_f18_i09_d02 0.826540269777394",
  "bbob-biobj_f18_i09_d03 0.955266931664022",
  "bbob-biobj_f18_i09_d05 0.990400188081170",
  "bbob-biobj_f18_i09_d10 0.973719812711369",
  "bbob-biobj_f18_i09_d20 0.927184296777493",
  "bbob-biobj_f18_i09_d40 0.940826217021873",
  "bbob-biobj_f18_i10_d02 0.981170857987276",
  "bbob-biobj_f18_i10_d03 0.977487404321554",
  "bbob-biobj_f18_i10_d05 0.973161994860676",
  "bbob-biobj_f18_i10_d10 0.930485909829110",
  "bbob-biobj_f18_i10_d20 0.958214791812810",
  "bbob-biobj_f18_i10_d40 0.936687847583049",
  "bbob-biobj_f18_i11_d02 1.0",
  "bbob-biobj_f18_i11_d03 1.0",
  "bbob-biobj_f18_i11_d05 1.0",
  "bbob-biobj_f18_i11_d10 1.0",
  "bbob-biobj_f18_i11_d20 1.0",
  "bbob-biobj_f18_i11_d40 1.0",
  "bbob-biobj_f18_i12_d02 1.0",
  "bbob-biobj_f18_i12_d03 1.0",
  "bbob-biobj_f18_i12_d05 1.0",
  "bbob-biobj_f18_i12_d10 1.0",
  "bbob-biobj_f18_i12_d20 1.0",
  "bbob-biobj_f18_i12_d40 1.0",
  "bbob-biobj_f18_i13_d02 1.0",
  "bbob-biobj_f18_i13_d03 1.0",
  "bbob-biobj_f18_i13_d05 1.0",
  "bbob-biobj_f18_i13_d10 1.0",
  "bbob-biobj_f18_i13_d20 1.0",
  "bbob-biobj_f18_i13_d40 1.0",
  "bbob-biobj_f18_i14_d02 1.0",
  "bbob-biobj_f18_i14_d03 1.0",
  "bbob-biobj_f18_i14_d05 1.0",
  "bbob-biobj_f18_i14_d10 1.0",
  "bbob-biobj_f18_i14_d20 1.0",
  "bbob-biobj_f18_i14_d40 1.0",
  "bbob-biobj_f18_i15_d02 1.0",
  "bbob-biobj_f18_i15_d03 1.0",
  "bbob-biobj_f18_i15_d05 1.0",
  "bbob-biobj_f18_i15_d10 1.0",
  "bbob-biobj_f18_i15_d20 1.0",
  "bbob-biobj_f18_i15_d40 1.0",
  "bbob-biobj_f19_i01_d02 0.865811770731921",
  "bbob-biobj_f19_i01_d03 0.973017247057512",
  "bbob-biobj_f19_i01_d05 0.992521544728759",
  "bbob-biobj_f19_i01_d10 0.992015676750431",
  "bbob-biobj_f19_i01_d20 0.985727207095561",
  "bbob-biobj_f19_i01_d40 0.968708111444335",
  "bbob-biobj_f19_i02_d02 0.920899455182180",
  "bbob-biobj_f19_i02_d03 0.986110943385011",
  "bbob-biobj_f19_i02_d05 0.989654348796015",
  "bbob-biobj_f19_i02_d10 0.998069566869596",
  "bbob-biobj_f19_i02_d20 0.971946796974695",
  "bbob-biobj_f19_i02_d40 0.950410504770783",
  "bbob-biobj_f19_i03_d02 0.904545299274402",
  "bbob-biobj_f19_i03_d03 0.957587365401640",
  "bbob-biobj_f19_i03_d05 0.982449904527118",
  "bbob-biobj_f19_i03_d10 0.991760867868237",
  "bbob-biobj_f19_i03_d20 0.993345216975816",
  "bbob-biobj_f19_i03_d40 0.963213924146087",
  "bbob-biobj_f19_i04_d02 0.999884821364810",
  "bbob-biobj_f19_i04_d03 0.996381011503881",
  "bbob-biobj_f19_i04_d05 0.992031985964079",
  "bbob-biobj_f19_i04_d10 0.992986860540315",
  "bbob-biobj_f19_i04_d20 0.976801738275965",
  "bbob-biobj_f19_i04_d40 0.972957229459967",
  "bbob-biobj_f19_i05_d02 0.997258709261627",
  "bbob-biobj_f19_i05_d03 0.959361859257914",
  "bbob-biobj_f19_i05_d05 0.993758691718374",
  "bbob-biobj_f19_i05_d10 0.992128970471116",
  "bbob-biobj_f19_i05_d20 0.984470434825430",
  "bbob-biobj_f19_i05_d40 0.939395739172570",
  "bbob-biobj_f19_i06_d02 0.955211504788045",
  "bbob-biobj_f19_i06_d03 0.991795027816023",
  "bbob-biobj_f19_i06_d05 0.995294664426083",
  "bbob-biobj_f19_i06_d10 0.993453063414076",
  "bbob-biobj_f19_i06_d20 0.988881226912081",
  "bbob-biobj_f19_i06_d40 0.930889367257548",
  "bbob-biobj_f19_i07_d02 0.916748358468225",
  "bbob-biobj_f19_i07_d03 0.976697911415346",
  "bbob-biobj_f19_i07_d05 0.998897439560711",
  "bbob-biobj_f19_i07_d10 0.985337158797574",
  "bbob-biobj_f19_i07_d20 0.984294297663750",
  "bbob-biobj_f19_i07_d40 0.977668769343021",
  "bbob-biobj_f19_i08_d02 0.954028862879188",
  "bbob-biobj_f19_i08_d03 0.958851958123935",
  "bbob-biobj_f19_i08_d05 0.981617688258936",
  "bbob-biobj_f19_i08_d10 0.991957920230594",
  "bbob-biobj_f19_i08_d20 0.993384581430229",
  "bbob-biobj_f19_i08_d40 0.931400004959781",
  "bbob-biobj_f19_i09_d02 0.949454854397529",
  "bbob-biobj_f19_i09_d03 0.968348328188755",
  "bbob-biobj_f19_i09_d05 0.957151920037808",
  "bbob-biobj_f19_i09_d10 0.990791529652153",
  "bbob-biobj_f19_i09_d20 0.981446422252370",
  "bbob-biobj_f19_i09_d40 0.961629256198723",
  "bbob-biobj_f19_i10_d02 0.946066683377767",
  "bbob-biobj_f19_i10_d03 0.980578550259608",
  "bbob-biobj_f19_i10_d05 0.999356136024621",
  "bbob-biobj_f19_i10_d10 0.988518494846568",
  "bbob-biobj_f19_i10_d20 0.988884026870925",
  "bbob-biobj_f19_i10_d40 0.896565501410778",
  "bbob-biobj_f19_i11_d02 1.0",
  "bbob-biobj_f19_i11_d03 1.0",
  "bbob-biobj_f19_i11_d05 1.0",
  "bbob-biobj_f19_i11_d10 1.0",
  "bbob-biobj_f19_i11_d20 1.0",
  "bbob-biobj_f19_i11_d40 1.0",
  "bbob-biobj_f19_i12_d02 1.0",
  "bbob-biobj_f19_i12_d03 1.0",
  "bbob-biobj_f19_i12_d05 1.0",
  "bbob-biobj_f19_i12_d10 1.0",
  "bbob-biobj_f19_i12_d20 1.0",
  "bbob-biobj_f19_i12_d40 1.0",
  "bbob-biobj_f19_i13_d02 1.0",
  "bbob-biobj_f19_i13_d03 1.0",
  "bbob-biobj_f19_i13_d05 1.0",
  "bbob-biobj_f19_i13_d10 1.0",
  "bbob-biobj_f19_i13_d20 1.0",
  "bbob-biobj_f19_i13_d40 1.0",
  "bbob-biobj_f19_i14_d02 1.0",
  "bbob-biobj_f19_i14_d03 1.0",
  "bbob-biobj_f19_i14_d05 1.0",
  "bbob-biobj_f19_i14_d10 1.0",
  "bbob-biobj_f19_i14_d20 1.0",
  "bbob-biobj_f19_i14_d40 1.0",
  "bbob-biobj_f19_i15_d02 1.0",
  "bbob-biobj_f19_i15_d03 1.0",
  "bbob-biobj_f19_i15_d05 1.0",
  "bbob-biobj_f19_i15_d10 1.0",
  "bbob-biobj_f19_i15_d20 1.0",
  "bbob-biobj_f19_i15_d40 1.0",
  "bbob-biobj_f20_i01_d02 0.995718026456638",
  "bbob-biobj_f20_i01_d03 0.813230762836442",
  "bbob-biobj_f20_i01_d05 0.967871002432375",
  "bbob-biobj_f20_i01_d10 0.999902739804120",
  "bbob-biobj_f20_i01_d20 0.999775497498613",
  "bbob-biobj_f20_i01_d40 0.999664116664435",
  "bbob-biobj_f20_i02_d02 0.910960748030164",
  "bbob-biobj_f20_i02_d03 0.974017477797567",
  "bbob-biobj_f20_i02_d05 0.814003461767120",
  "bbob-biobj_f20_i02_d10 0.999677569102844",
  "bbob-biobj_f20_i02_d20 0.999654004306429",
  "bbob-biobj_f20_i02_d40 0.999790560996347",
  "bbob-biobj_f20_i03_d02 0.985777930049723",
  "bbob-biobj_f20_i03_d03 0.999442800070996",
  "bbob-biobj_f20_i03_d05 0.892413297548470",
  "bbob-biobj_f20_i03_d10 0.972685717809694",
  "bbob-biobj_f20_i03_d20 0.999810203444123",
  "bbob-biobj_f20_i03_d40 0.997306868880074",
  "bbob-biobj_f20_i04_d02 0.890180220604319",
  "bbob-biobj_f20_i04_d03 0.925392845818037",
  "bbob-biobj_f20_i04_d05 0.999111564516406",
  "bbob-biobj_f20_i04_d10 0.999930995483195",
  "bbob-biobj_f20_i04_d20 0.999631609770450",
  "bbob-biobj_f20_i04_d40 0.999889174125538",
  "bbob-biobj_f20_i05_d02 0.980549386581144",
  "bbob-biobj_f20_i05_d03 0.963675021169463",
  "bbob-biobj_f20_i05_d05 0.946995300479762",
  "bbob-biobj_f20_i05_d10 0.999846864012334",
  "bbob-biobj_f20_i05_d20 0.958608264570341",
  "bbob-biobj_f20_i05_d40 0.999836960921451",
  "bbob-biobj_f20_i06_d02 0.869043334279351",
  "bbob-biobj_f20_i06_d03 0.999660960854221",
  "bbob-biobj_f20_i06_d05 0.888668538214566",
  "bbob-biobj_f20_i06_d10 0.921065924714680",
  "bbob-biobj_f20_i06_d20 0.999867187743562",
  "bbob-biobj_f20_i06_d40 0.999694714553354",
  "bbob-biobj_f20_i07_d02 0.951115687828409",
  "bbob-biobj_f20_i07_d03 0.864351550293221",
  "bbob-biobj_f20_i07_d05 0.999632572524201",
  "bbob-biobj_f20_i07_d10 0.972934973625756",
  "bbob-biobj_f20_i07_d20 0.982969587225086",
  "bbob-biobj_f20_i07_d40 0.999588862627488",
  "bbob-biobj_f20_i08_d02 0.840742965786629",
  "bbob-biobj_f20_i08_d03 0.849646747099705",
  "bbob-biobj_f20_i08_d05 0.994543846130131",
  "bbob-biobj_f20_i08_d10 0.999724942401950",
  "bbob-biobj_f20_i08_d20 0.999806100292651",
  "bbob-biobj_f20_i08_d40 0.999263843535335",
  "bbob-biobj_f20_i09_d02 0.998339920553951",
  "bbob-biobj_f20_i09_d03 0.999067290809170",
  "bbob-biobj_f20_i09_d05 0.963580072588558",
  "bbob-biobj_f20_i09_d10 0.999433695629111",
  "bbob-biobj_f20_i09_d20 0.999767702792318",
  "bbob-biobj_f20_i09_d40 0.999829335473340",
  "bbob-biobj_f20_i10_d02 0.994832672081393",
  "bbob-biobj_f20_i10_d03 0.945569229589977",
  "bbob-biobj_f20_i10_d05 0.859870669342559",
  "bbob-biobj_f20_i10_d10 0.999803407505220",
  "bbob-biobj_f20_i10_d20 0.999323836369105",
  "bbob-biobj_f20_i10_d40 0.998019183408066",
  "bbob-biobj_f20_i11_d02 1.0",
  "bbob-biobj_f20_i11_d03 1.0",
  "bbob-biobj_f20_i11_d05 1.0",
  "bbob-biobj_f20_i11_d10 1.0",
  "bbob-biobj_f20_i11_d20 1.0",
  "bbob-biobj_f20_i11_d40 1.0",
  "bbob-biobj_f20_i12_d02 1.0",
  "bbob-biobj_f20_i12_d03 1.0",
  "bbob-biobj_f20_i12_d05 1.0",
  "bbob-biobj_f20_i12_d10 1.0",
  "bbob-biobj_f20_i12_d20 1.0",
  "bbob-biobj_f20_i12_d40 1.0",
  "bbob-biobj_f20_i13_d02 1.0",
  "bbob-biobj_f20_i13_d03 1.0",
  "bbob-biobj_f20_i13_d05 1.0",
  "bbob-biobj_f20_i13_d10 1.0",
  "bbob-biobj_f20_i13_d20 1.0",
  "bbob-biobj_f20_i13_d40 1.0",
  "bbob-biobj_f20_i14_d02 1.0",
  "bbob-biobj_f20_i14_d03 1.0",
  "bbob-biobj_f20_i14_d05 1.0",
  "bbob-biobj_f20_i14_d10 1.0",
  "bbob-biobj_f20_i14_d20 1.0",
  "bbob-biobj_f20_i14_d40 1.0",
  "bbob-biobj_f20_i15_d02 1.0",
  "bbob-biobj_f20_i15_d03 1.0",
  "bbob-biobj_f20_i15_d05 1.0",
  "bbob-biobj_f20_i15_d10 1.0",
  "bbob-biobj_f20_i15_d20 1.0",
  "bbob-biobj_f20_i15_d40 1.0",
  "bbob-biobj_f21_i01_d02 0.999736618189728",
  "bbob-biobj_f21_i01_d03 0.911543728863680",
  "bbob-biobj_f21_i01_d05 0.912545592283940",
  "bbob-biobj_f21_i01_d10 0.993980399482700",
  "bbob-biobj_f21_i01_d20 0.981413338740226",
  "bbob-biobj_f21_i01_d40 0.983728574746616",
  "bbob-biobj_f21_i02_d02 0.985471502176322",
  "bbob-biobj_f21_i02_d03 0.980784705794501",
  "bbob-biobj_f21_i02_d05 0.998160647068493",
  "bbob-biobj_f21_i02_d10 0.997301495041459",
  "bbob-biobj_f21_i02_d20 0.993496201263574",
  "bbob-biobj_f21_i02_d40 0.996307110176717",
  "bbob-biobj_f21_i03_d02 0.973889905170571",
  "bbob-biobj_f21_i03_d03 0.968954320323192",
  "bbob-biobj_f21_i03_d05 0.929908020902274",
  "bbob-biobj_f21_i03_d10 0.998453798823771",
  "bbob-biobj_f21_i03_d20 0.993066368397647",
  "bbob-biobj_f21_i03_d40 0.995963598347175",
  "bbob-biobj_f21_i04_d02 0.999788754145244",
  "bbob-biobj_f21_i04_d03 0.954074968597077",
  "bbob-biobj_f21_i04_d05 0.928306129173680",
  "bbob-biobj_f21_i04_d10 0.904334442460224",
  "bbob-biobj_f21_i04_d20 0.996041198064085",
  "bbob-biobj_f21_i04_d40 0.968559650834793",
  "bbob-biobj_f21_i05_d02 0.890725681076297",
  "bbob-biobj_f21_i05_d03 0.999573377249035",
  "bbob-biobj_f21_i05_d05 0.997872881727144",
  "bbob-biobj_f21_i05_d10 0.958085510372521",
  "bbob-biobj_f21_i05_d20 0.982091917659635",
  "bbob-biobj_f21_i05_d40 0.985788879474571",
  "bbob-biobj_f21_i06_d02 0.998906461755895",
  "bbob-biobj_f21_i06_d03 0.898698179313327",
  "bbob-biobj_f21_i06_d05 0.999922910143998",
  "bbob-biobj_f21_i06_d10 0.993121495443903",
  "bbob-biobj_f21_i06_d20 0.995678603147139",
  "bbob-biobj_f21_i06_d40 0.990854319668004",
  "bbob-biobj_f21_i07_d02 0.862088180810070",
  "bbob-biobj_f21_i07_d03 0.994766867282409",
  "bbob-biobj_f21_i07_d05 0.999835182167843",
  "bbob-biobj_f21_i07_d10 0.997671966993714",
  "bbob-biobj_f21_i07_d20 0.953953966750356",
  "bbob-biobj_f21_i07_d40 0.978273920139613",
  "bbob-biobj_f21_i08_d02 0.986058931076662",
  "bbob-biobj_f21_i08_d03 0.999631463214444",
  "bbob-biobj_f21_i08_d05 0.942384927863932",
  "bbob-biobj_f21_i08_d10 0.996932728163747",
  "bbob-biobj_f21_i08_d20 0.988146384617908",
  "bbob-biobj_f21_i08_d40 0.998385840941191",
  "bbob-biobj_f21_i09_d02 0.972494611963315",
  "bbob-biobj_f21_i09_d03 0.998500373745383",
  "bbob-biobj_f21_i09_d05 0.998994382749117",
  "bbob-biobj_f21_i09_d10 0.981106741445144",
  "bbob-biobj_f21_i09_d20 0.981978280713147",
  "bbob-biobj_f21_i09_d40 0.989400835138566",
  "bbob-biobj_f21_i10_d02 0.940893377121817",
  "bbob-biobj_f21_i10_d03 0.949363879049512",
  "bbob-biobj_f21_i10_d05 0.979604346471867",
  "bbob-biobj_f21_i10_d10 0.977275303898697",
  "bbob-biobj_f21_i10_d20 0.972982656541522",
  "bbob-biobj_f21_i10_d40 0.997081448699098",
  "bbob-biobj_f21_i11_d02 1.0",
  "bbob-biobj_f21_i11_d03 1.0",
  "bbob-biobj_f21_i11_d05 1.0",
  "bbob-biobj_f21_i11_d10 1.0",
  "bbob-biobj_f21_i11_d20 1.0",
  "bbob-biobj_f21_i11_d40 1.0",
  "bbob-biobj_f21_i12_d02 1.0",
  "bbob-biobj_f21_i12_d03 1.0",
  "bbob-biobj_f21_i12_d05 1.0",
  "bbob-biobj_f21_i12_d10 1.0",
  "bbob-biobj_f21_i12_d20 1.0",
  "bbob-biobj_f21_i12_d40 1.0",
  "bbob-biobj_f21_i13_d02 1.0",
  "bbob-biobj_f21_i13_d03 1.0",
  "bbob-biobj_f21_i13_d05 1.0",
  "bbob-biobj_f21_i13_d10 1.0",
  "bbob-biobj_f21_i13_d20 1.0",
  "bbob-biobj_f21_i13_d40 1.0",
  "bbob-biobj_f21_i14_d02 1.0",
  "bbob-biobj_f21_i14_d03 1.0",
  "bbob-biobj_f21_i14_d05 1.0",
  "bbob-biobj_f21_i14_d10 1.0",
  "bbob-biobj_f21_i14_d20 1.0",
  "bbob-biobj_f21_i14_d40 1.0",
  "bbob-biobj_f21_i15_d02 1.0",
  "bbob-biobj_f21_i15_d03 1.0",
  "bbob-biobj_f21_i15_d05 1.0",
  "bbob-biobj_f21_i15_d10 1.0",
  "bbob-biobj_f21_i15_d20 1.0",
  "bbob-biobj_f21_i15_d40 1.0",
  "bbob-biobj_f22_i01_d02 0.700916438458949",
  "bbob-biobj_f22_i01_d03 0.694484080130242",
  "bbob-biobj_f22_i01_d05 0.986978393520645",
  "bbob-biobj_f22_i01_d10 0.837909044739840",
  "bbob-biobj_f22_i01_d20 0.771234269693943",
  "bbob-biobj_f22_i01_d40 0.795805716891725",
  "bbob-biobj_f22_i02_d02 0.999055968888817",
  "bbob-biobj_f22_i02_d03 0.742603415635723",
  "bbob-biobj_f22_i02_d05 0.764278616146223",
  "bbob-biobj_f22_i02_d10 0.728760863755530",
  "bbob-biobj_f22_i02_d20 0.756692138841068",
  "bbob-biobj_f22_i02_d40 0.854998423517715",
  "bbob-biobj_f22_i03_d02 0.678523358470699",
  "bbob-biobj_f22_i03_d03 0.951238744037570",
  "bbob-biobj_f22_i03_d05 0.735426416509445",
  "bbob-biobj_f22_i03_d10 0.862594276552713",
  "bbob-biobj_f22_i03_d20 0.863135740546530",
  "bbob-biobj_f22_i03_d40 0.775341469507760",
  "bbob-biobj_f22_i04_d02 0.846367984738874",
  "bbob-biobj_f22_i04_d03 0.803806833320501",
  "bbob-biobj_f22_i04_d05 0.834646162414875",
  "bbob-biobj_f22_i04_d10 0.842317802659711",
  "bbob-biobj_f22_i04_d20 0.915887707245297",
  "bbob-biobj_f22_i04_d40 0.805194046957110",
  "bbob-biobj_f22_i05_d02 0.856039950461191",
  "bbob-biobj_f22_i05_d03 0.929859265278102",
  "bbob-biobj_f22_i05_d05 0.892887709868479",
  "bbob-biobj_f22_i05_d10 0.819642006415066",
  "bbob-biobj_f22_i05_d20 0.789452742291418",
  "bbob-biobj_f22_i05_d40 0.764365637153030",
  "bbob-biobj_f22_i06_d02 0.977995690715274",
  "bbob-biobj_f22_i06_d03 0.724548962936434",
  "bbob-biobj_f22_i06_d05 0.812081047098926",
  "bbob-biobj_f22_i06_d10 0.861080402018885",
  "bbob-biobj_f22_i06_d20 0.761773450745187",
  "bbob-biobj_f22_i06_d40 0.890819565561763",
  "bbob-biobj_f22_i07_d02 0.910044699639924",
  "bbob-biobj_f22_i07_d03 0.691497046586329",
  "bbob-biobj_f22_i07_d05 0.722689208326945",
  "bbob-biobj_f22_i07_d10 0.786295128946995",
  "bbob-biobj_f22_i07_d20 0.763717376257625",
  "bbob-biobj_f22_i07_d40 0.771665444522524",
  "bbob-biobj_f22_i08_d02 0.906996575764602",
  "bbob-biobj_f22_i08_d03 0.835949129023862",
  "bbob-biobj_f22_i08_d05 0.772262918155847",
  "bbob-biobj_f22_i08_d10 0.940087182487452",
  "bbob-biobj_f22_i08_d20 0.769339400709221",
  "bbob-biobj_f22_i08_d40 0.784553862839583",
  "bbob-biobj_f22_i09_d02 0.968992795251485",
  "bbob-biobj_f22_i09_d03 0.916981949396889",
  "bbob-biobj_f22_i09_d05 0.950507879748341",
  "bbob-biobj_f22_i09_d10 0.899124450109738",
  "bbob-biobj_f22_i09_d20 0.812683075569951",
  "bbob-biobj_f22_i09_d40 0.825849882521296",
  "bbob-biobj_f22_i10_d02 0.928391619677447",
  "bbob-biobj_f22_i10_d03 0.652494766185522",
  "bbob-biobj_f22_i10_d05 0.761558277329775",
  "bbob-biobj_f22_i10_d10 0.743060120366039",
  "bbob-biobj_f22_i10_d20 0.700275027790970",
  "bbob-biobj_f22_i10_d40 0.822934283135951",
  "bbob-biobj_f22_i11_d02 1.0",
  "bbob-biobj_f22_i11_d03 1.0",
  "bbob-biobj_f22_i11_d05 1.0",
  "bbob-biobj_f22_i11_d10 1.0",
  "bbob-biobj_f22_i11_d20 1.0",
  "bbob-biobj_f22_i11_d40 1.0",
  "bbob-biobj_f22_i12_d02 1.0",
  "bbob-biobj_f22_i12_d03 1.0",
  "bbob-biobj_f22_i12_d05 1.0",
  "bbob-biobj_f22_i12_d10 1.0",
  "bbob-biobj_f22_i12_d20 1.0",
  "bbob-biobj_f22_i12_d40 1.0",
  "bbob-biobj_f22_i13_d02 1.0",
  "bbob-biobj_f22_i13_d03 1.0",
  "bbob-biobj_f22_i13_d05 1.0",
  "bbob-biobj_f22_i13_d10 1.0",
  "bbob-biobj_f22_i13_d20 1.0",
  "bbob-biobj_f22_i13_d40 1.0",
  "bbob-biobj_f22_i14_d02 1.0",
  "bbob-biobj_f22_i14_d03 1.0",
  "bbob-biobj_f22_i14_d05 1.0",
  "bbob-biobj_f22_i14_d10 1.0",
  "bbob-biobj_f22_i14_d20 1.0",
  "bbob-biobj_f22_i14_d40 1.0",
  "bbob-biobj_f22_i15_d02 1.0",
  "bbob-biobj_f22_i15_d03 1.0",
  "bbob-biobj_f22_i15_d05 1.0",
  "bbob-biobj_f22_i15_d10 1.0",
  "bbob-biobj_f22_i15_d20 1.0",
  "bbob-biobj_f22_i15_d40 1.0",
  "bbob-biobj_f23_i01_d02 0.992534054268812",
  "bbob-biobj_f23_i01_d03 0.872237030138405",
  "bbob-biobj_f23_i01_d05 0.980182962061889",
  "bbob-biobj_f23_i01_d10 0.991308488908461",
  "bbob-biobj_f23_i01_d20 0.941127578039942",
  "bbob-biobj_f23_i01_d40 0.969136640388886",
  "bbob-biobj_f23_i02_d02 0.996445292624505",
  "bbob-biobj_f23_i02_d03 0.862095706452471",
  "bbob-biobj_f23_i02_d05 0.919722216097581",
  "bbob-biobj_f23_i02_d10 0.957106291743395",
  "bbob-biobj_f23_i02_d20 0.916213075021448",
  "bbob-biobj_f23_i02_d40 0.976239423933783",
  "bbob-biobj_f23_i03_d02 0.928112249455155",
  "bbob-biobj_f23_i03_d03 0.880344320238549",
  "bbob-biobj_f23_i03_d05 0.894403398636602",
  "bbob-biobj_f23_i03_d10 0.985390261740675",
  "bbob-biobj_f23_i03_d20 0.969070196929476",
  "bbob-biobj_f23_i03_d40 0.978589794415086",
  "bbob-biobj_f23_i04_d02 0.965419264936455",
  "bbob-biobj_f23_i04_d03 0.925757047133570",
  "bbob-biobj_f23_i04_d05 0.887977988719971",
  "bbob-biobj_f23_i04_d10 0.980016070326204",
  "bbob-biobj_f23_i04_d20 0.983100676088016",
  "bbob-biobj_f23_i04_d40 0.970816589257367",
  "bbob-biobj_f23_i05_d02 0.738909732737773",
  "bbob-biobj_f23_i05_d03 0.840966518574642",
  "bbob-biobj_f23_i05_d05 0.891343027607885",
  "bbob-biobj_f23_i05_d10 0.954458858293685",
  "bbob-biobj_f23_i05_d20 0.958522644454065",
  "bbob-biobj_f23_i05_d40 0.952036620183425",
  "bbob-biobj_f23_i06_d02 0.897625000364078",
  "bbob-biobj_f23_i06_d03 0.850455709554025",
  "bbob-biobj_f23_i06_d05 0.902953778767981",
  "bbob-biobj_f23_i06_d10 0.953871508298359",
  "bbob-biobj_f23_i06_d20 0.961806271708952",
  "bbob-biobj_f23_i06_d40 0.973529155239116",
  "bbob-biobj_f23_i07_d02 0.911732420138085",
  "bbob-biobj_f23_i07_d03 0.945122055110574",
  "bbob-biobj_f23_i07_d05 0.984532827314458",
  "bbob-biobj_f23_i07_d10 0.892809064107139",
  "bbob-biobj_f23_i07_d20 0.885739321899932",
  "bbob-biobj_f23_i07_d40 0.957880351545702",
  "bbob-biobj_f23_i08_d02 0.980413763708752",
  "bbob-biobj_f23_i08_d03 0.940189636105499",
  "bbob-biobj_f23_i08_d05 0.912738863710758",
  "bbob-biobj_f23_i08_d10 0.957188314008682",
  "bbob-biobj_f23_i08_d20 0.968134176347444",
  "bbob-biobj_f23_i08_d40 0.974280055391648",
  "bbob-biobj_f23_i09_d02 0.965467065790784",
  "bbob-biobj_f23_i09_d03 0.949242147095511",
  "bbob-biobj_f23_i09_d05 0.975255259508653",
  "bbob-biobj_f23_i09_d10 0.957152835866277",
  "bbob-biobj_f23_i09_d20 0.930236450073095",
  "bbob-biobj_f23_i09_d40 0.972137109059265",
  "bbob-biobj_f23_i10_d02 0.965992184639191",
  "bbob-biobj_f23_i10_d03 0.935204676725171",
  "bbob-biobj_f23_i10_d05 0.842935224036951",
  "bbob-biobj_f23_i10_d10 0.926191647516182",
  "bbob-biobj_f23_i10_d20 0.896701726989031",
  "bbob-biobj_f23_i10_d40 0.969163906891611",
  "bbob-biobj_f23_i11_d02 1.0",
  "bbob-biobj_f23_i11_d03 1.0",
  "bbob-biobj_f23_i11_d05 1.0",
  "bbob-biobj_f23_i11_d10 1.0",
  "bbob-biobj_f23_i11_d20 1.0",
  "bbob-biobj_f23_i11_d40 1.0",
  "bbob-biobj_f23_i12_d02 1.0",
  "bbob-biobj_f23_i12_d03 1.0",
  "bbob-biobj_f23_i12_d05 1.0",
  "bbob-biobj_f23_i12_d10 1.0",
  "bbob-biobj_f23_i12_d20 1.0",
  "bbob-biobj_f23_i12_d40 1.0",
  "bbob-biobj_f23_i13_d02 1.0",
  "bbob-biobj_f23_i13_d03 1.0",
  "bbob-biobj_f23_i13_d05 1.0",
  "bbob-biobj_f23_i13_d10 1.0",
  "bbob-biobj_f23_i13_d20 1.0",
  "bbob-biobj_f23_i13_d40 1.0",
  "bbob-biobj_f23_i14_d02 1.0",
  "bbob-biobj_f23_i14_d03 1.0",
  "bbob-biobj_f23_i14_d05 1.0",
  "bbob-biobj_f23_i14_d10 1.0",
  "bbob-biobj_f23_i14_d20 1.0",
  "bbob-biobj_f23_i14_d40 1.0",
  "bbob-biobj_f23_i15_d02 1.0",
  "bbob-biobj_f23_i15_d03 1.0",
  "bbob-biobj_f23_i15_d05 1.0",
  "bbob-biobj_f23_i15_d10 1.0",
  "bbob-biobj_f23_i15_d20 1.0",
  "bbob-biobj_f23_i15_d40 1.0",
  "bbob-biobj_f24_i01_d02 0.886263607678189",
  "bbob-biobj_f24_i01_d03 0.987114738235866",
  "bbob-biobj_f24_i01_d05 0.869900434826347",
  "bbob-biobj_f24_i01_d10 0.954785088308314",
  "bbob-biobj_f24_i01_d20 0.943800367180536",
  "bbob-biobj_f24_i01_d40 0.949986153251480",
  "bbob-biobj_f24_i02_d02 0.988139648340057",
  "bbob-biobj_f24_i02_d03 0.906308249603081",
  "bbob-biobj_f24_i02_d05 0.948010371784443",
  "bbob-biobj_f24_i02_d10 0.897865958220916",
  "bbob-biobj_f24_i02_d20 0.987059232687201",
  "bbob-biobj_f24_i02_d40 0.968007269361948",
  "bbob-biobj_f24_i03_d02 0.952811649213530",
  "bbob-biobj_f24_i03_d03 0.855068095684849",
  "bbob-biobj_f24_i03_d05 0.935534198962083",
  "bbob-biobj_f24_i03_d10 0.911447630079168",
  "bbob-biobj_f24_i03_d20 0.982501571019476",
  "bbob-biobj_f24_i03_d40 0.932892937400739",
  "bbob-biobj_f24_i04_d02 0.953732580833603",
  "bbob-biobj_f24_i04_d03 0.931783237315413",
  "bbob-biobj_f24_i04_d05 0.881151127927997",
  "bbob-biobj_f24_i04_d10 0.968856602598105",
  "bbob-biobj_f24_i04_d20 0.950459841911081",
  "bbob-biobj_f24_i04_d40 0.944023946290275",
  "bbob-biobj_f24_i05_d02 0.823877137496916",
  "bbob-biobj_f24_i05_d03 0.892824055307102",
  "bbob-biobj_f24_i05_d05 0.958081666884363",
  "bbob-biobj_f24_i05_d10 0.939871414605463",
  "bbob-biobj_f24_i05_d20 0.927432042163679",
  "bbob-biobj_f24_i05_d40 0.949016725327886",
  "bbob-biobj_f24_i06_d02 0.961551593219125",
  "bbob-biobj_f24_i06_d03 0.993394862477095",
  "bbob-biobj_f24_i06_d05 0.874370681463446",
  "bbob-biobj_f24_i06_d10 0.955515530362279",
  "bbob-biobj_f24_i06_d20 0.969428910758238",
  "bbob-biobj_f24_i06_d40 0.966430959788954",
  "bbob-biobj_f24_i07_d02 0.881087719966057",
  "bbob-biobj_f24_i07_d03 0.927025246802620",
  "bbob-biobj_f24_i07_d05 0.953592183500972",
  "bbob-biobj_f24_i07_d10 0.930995458287158",
  "bbob-biobj_f24_i07_d20 0.937478402473053",
  "bbob-biobj_f24_i07_d40 0.925844990010482",
  "bbob-biobj_f24_i08_d02 0.746749823443233",
  "bbob-biobj_f24_i08_d03 0.975106631219541",
  "bbob-biobj_f24_i08_d05 0.910590009382779",
  "bbob-biobj_f24_i08_d10 0.976367018095116",
  "bbob-biobj_f24_i08_d20 0.910905968470937",
  "bbob-biobj_f24_i08_d40 0.903930930125308",
  "bbob-biobj_f24_i09_d02 0.941309282349682",
  "bbob-biobj_f24_i09_d03 0.997025018274453",
  "bbob-biobj_f24_i09_d05 0.972035209899614",
  "bbob-biobj_f24_i09_d10 0.910417850467829",
  "bbob-biobj_f24_i09_d20 0.942610674256181",
  "bbob-biobj_f24_i09_d40 0.900887613079224",
  "bbob-biobj_f24_i10_d02 0.929447945801003",
  "bbob-biobj_f24_i10_d03 0.995092437929069",
  "bbob-biobj_f24_i10_d05 0.877392585145231",
  "bbob-biobj_f24_i10_d10 0.948433552062243",
  "bbob-biobj_f24_i10_d20 0.958192162368286",
  "bbob-biobj_f24_i10_d40 0.929477278156345",
  "bbob-biobj_f24_i11_d02 1.0",
  "bbob-biobj_f24_i11_d03 1.0",
  "bbob-biobj_f24_i11_d05 1.0",
  "bbob-biobj_f24_i11_d10 1.0",
  "bbob-biobj_f24_i11_d20 1.0",
  "bbob-biobj_f24_i11_d40 1.0",
  "bbob-biobj_f24_i12_d02 1.0",
  "bbob-biobj_f24_i12_d03 1.0",
  "bbob-biobj_f24_i12_d05 1.0",
  "bbob-biobj_f24_i12_d10 1.0",
  "bbob-biobj_f24_i12_d20 1.0",
  "bbob-biobj_f24_i12_d40 1.0",
  "bbob-biobj_f24_i13_d02 1.0",
  "bbob-biobj_f24_i13_d03 1.0",
  "bbob-biobj_f24_i13_d05 1.0",
  "bbob-biobj_f24_i13_d10 1.0",
  "bbob-biobj_f24_i13_d20 1.0",
  "bbob-biobj_f24_i13_d40 1.0",
  "bbob-biobj_f24_i14_d02 1.0",
  "bbob-biobj_f24_i14_d03 1.0",
  "bbob-biobj_f24_i14_d05 1.0",
  "bbob-biobj_f24_i14_d10 1.0",
  "bbob-biobj_f24_i14_d20 1.0",
  "bbob-biobj_f24_i14_d40 1.0",
  "bbob-biobj_f24_i15_d02 1.0",
  "bbob-biobj_f24_i15_d03 1.0",
  "bbob-biobj_f24_i15_d05 1.0",
  "bbob-biobj_f24_i15_d10 1.0",
  "bbob-biobj_f24_i15_d20 1.0",
  "bbob-biobj_f24_i15_d40 1.0",
  "bbob-biobj_f25_i01_d02 0.890543038798975",
  "bbob-biobj_f25_i01_d03 0.996743415999830",
  "bbob-biobj_f25_i01_d05 0.993207593187196",
  "bbob-biobj_f25_i01_d10 0.986814215720081",
  "bbob-biobj_f25_i01_d20 0.980467784715618",
  "bbob-biobj_f25_i01_d40 0.965373602633378",
  "bbob-biobj_f25_i02_d02 0.944370927074528",
  "bbob-biobj_f25_i02_d03 0.961712928294577",
  "bbob-biobj_f25_i02_d05 0.983975393346627",
  "bbob-biobj_f25_i02_d10 0.972675484610256",
  "bbob-biobj_f25_i02_d20 0.937188891611961",
  "bbob-biobj_f25_i02_d40 0.980258323163874",
  "bbob-biobj_f25_i03_d02 0.978560043300318",
  "bbob-biobj_f25_i03_d03 0.957789042519712",
  "bbob-biobj_f25_i03_d05 0.970084792278332",
  "bbob-biobj_f25_i03_d10 0.988227800329668",
  "bbob-biobj_f25_i03_d20 0.986540713045901",
  "bbob-biobj_f25_i03_d40 0.966498227782967",
  "bbob-biobj_f25_i04_d02 0.827380671367650",
  "bbob-biobj_f25_i04_d03 0.985284603938040",
  "bbob-biobj_f25_i04_d05 0.992678058338896",
  "bbob-biobj_f25_i04_d10 0.972909138535233",
  "bbob-biobj_f25_i04_d20 0.992295634647113",
  "bbob-biobj_f25_i04_d40 0.955202373496471",
  "bbob-biobj_f25_i05_d02 0.903625214843076",
  "bbob-biobj_f25_i05_d03 0.987244839347358",
  "bbob-biobj_f25_i05_d05 0.938620430685910",
  "bbob-biobj_f25_i05_d10 0.957995840802201",
  "bbob-biobj_f25_i05_d20 0.961012519647219",
  "bbob-biobj_f25_i05_d40 0.936720256813014",
  "bbob-biobj_f25_i06_d02 0.953597929830999",
  "bbob-biobj_f25_i06_d03 0.973854013837476",
  "bbob-biobj_f25_i06_d05 0.795906462798231",
  "bbob-biobj_f25_i06_d10 0.962497101024527",
  "bbob-biobj_f25_i06_d20 0.996988957184134",
  "bbob-biobj_f25_i06_d40 0.889472473043087",
  "bbob-biobj_f25_i07_d02 0.723624129010671",
  "bbob-biobj_f25_i07_d03 0.964012619854987",
  "bbob-biobj_f25_i07_d05 0.909500148998780",
  "bbob-biobj_f25_i07_d10 0.993126174158272",
  "bbob-biobj_f25_i07_d20 0.996350558340747",
  "bbob-biobj_f25_i07_d40 0.958555839241515",
  "bbob-biobj_f25_i08_d02 0.877837312082041",
  "bbob-biobj_f25_i08_d03 0.873300181393398",
  "bbob-biobj_f25_i08_d05 0.991399141885842",
  "bbob-biobj_f25_i08_d10 0.965310117151957",
  "bbob-biobj_f25_i08_d20 0.996417564685983",
  "bbob-biobj_f25_i08_d40 0.954034666543565",
  "bbob-biobj_f25_i09_d02 0.865140328123062",
  "bbob-biobj_f25_i09_d03 0.995947820347842",
  "bbob-biobj_f25_i09_d05 0.964898722604236",
  "bbob-biobj_f25_i09_d10 0.972570074149609",
  "bbob-biobj_f25_i09_d20 0.946782160081355",
  "bbob-biobj_f25_i09_d40 0.917252796575144",
  "bbob-biobj_f25_i10_d02 0.885990743877604",
  "bbob-biobj_f25_i10_d03 0.983929386161724",
  "bbob-biobj_f25_i10_d05 0.942512487443841",
  "bbob-biobj_f25_i10_d10 0.998291464917026",
  "bbob-biobj_f25_i10_d20 0.971696871369013",
  "bbob-biobj_f25_i10_d40 0.951976806873060",
  "bbob-biobj_f25_i11_d02 1.0",
  "bbob-biobj_f25_i11_d03 1.0",
  "bbob-biobj_f25_i11_d05 1.0",
  "bbob-biobj_f25_i11_d10 1.0",
  "bbob-biobj_f25_i11_d20 1.0",
  "bbob-biobj_f25_i11_d40 1.0",
  "bbob-biobj_f25_i12_d02 1.0",
  "bbob-biobj_f25_i12_d03 1.0",
  "bbob-biobj_f25_i12_d05 1.0",
  "bbob-biobj_f25_i12_d10 1.0",
  "bbob-biobj_f25_i12_d20 1.0",
  "bbob-biobj_f25_i12_d40 1.0",
  "bbob-biobj_f25_i13_d02 1.0",
  "bbob-biobj_f25_i13_d03 1.0",
  "bbob-biobj_f25_i13_d05 1.0",
  "bbob-biobj_f25_i13_d10 1.0",
  "bbob-biobj_f25_i13_d20 1.0",
  "bbob-biobj_f25_i13_d40 1.0",
  "bbob-biobj_f25_i14_d02 1.0",
  "bbob-biobj_f25_i14_d03 1.0",
  "bbob-biobj_f25_i14_d05 1.0",
  "bbob-biobj_f25_i14_d10 1.0",
  "bbob-biobj_f25_i14_d20 1.0",
  "bbob-biobj_f25_i14_d40 1.0",
  "bbob-biobj_f25_i15_d02 1.0",
  "bbob-biobj_f25_i15_d03 1.0",
  "bbob-biobj_f25_i15_d05 1.0",
  "bbob-biobj_f25_i15_d10 1.0",
  "bbob-biobj_f25_i15_d20 1.0",
  "bbob-biobj_f25_i15_d40 1.0",
  "bbob-biobj_f26_i01_d02 0.978921982681011",
  "bbob-biobj_f26_i01_d03 0.999860007752057",
  "bbob-biobj_f26_i01_d05 0.949035194489816",
  "bbob-biobj_f26_i01_d10 0.999623861039334",
  "bbob-biobj_f26_i01_d20 0.999902274088330",
  "bbob-biobj_f26_i01_d40 0.999593261593257",
  "bbob-biobj_f26_i02_d02 0.994494713596938",
  "bbob-biobj_f26_i02_d03 0.988829353431115",
  "bbob-biobj_f26_i02_d05 0.979222106784557",
  "bbob-biobj_f26_i02_d10 0.999635351294537",
  "bbob-biobj_f26_i02_d20 0.996348467425628",
  "bbob-biobj_f26_i02_d40 0.997476701245914",
  "bbob-biobj_f26_i03_d02 0.999888275992974",
  "bbob-biobj_f26_i03_d03 0.996486879482429",
  "bbob-biobj_f26_i03_d05 0.984010781647230",
  "bbob-biobj_f26_i03_d10 0.997283808894049",
  "bbob-biobj_f26_i03_d20 0.999942747534485",
  "bbob-biobj_f26_i03_d40 0.999675454511395",
  "bbob-biobj_f26_i04_d02 0.929919263339422",
  "bbob-biobj_f26_i04_d03 0.996886251406220",
  "bbob-biobj_f26_i04_d05 0.965393641764490",
  "bbob-biobj_f26_i04_d10 0.999902015865428",
  "bbob-biobj_f26_i04_d20 0.999910685806054",
  "bbob-biobj_f26_i04_d40 0.992570055689473",
  "bbob-biobj_f26_i05_d02 0.732359031442187",
  "bbob-biobj_f26_i05_d03 0.919257197619109",
  "bbob-biobj_f26_i05_d05 0.999565024330862",
  "bbob-biobj_f26_i05_d10 0.998146858129032",
  "bbob-biobj_f26_i05_d20 0.994309396955916",
  "bbob-biobj_f26_i05_d40 0.995553407285418",
  "bbob-biobj_f26_i06_d02 0.998259269935287",
  "bbob-biobj_f26_i06_d03 0.999730545891778",
  "bbob-biobj_f26_i06_d05 0.999950884709179",
  "bbob-biobj_f26_i06_d10 0.999961381926083",
  "bbob-biobj_f26_i06_d20 0.996029693542029",
  "bbob-biobj_f26_i06_d40 0.999915832962006",
  "bbob-biobj_f26_i07_d02 0.958138168639729",
  "bbob-biobj_f26_i07_d03 0.982256290624622",
  "bbob-biobj_f26_i07_d05 0.999648489126283",
  "bbob-biobj_f26_i07_d10 0.997384707121421",
  "bbob-biobj_f26_i07_d20 0.970139253020355",
  "bbob-biobj_f26_i07_d40 0.988318689116821",
  "bbob-biobj_f26_i08_d02 0.893980110702659",
  "bbob-biobj_f26_i08_d03 0.904151590886388",
  "bbob-biobj_f26_i08_d05 0.993795024317420",
  "bbob-biobj_f26_i08_d10 0.995847245270051",
  "bbob-biobj_f26_i08_d20 0.999614815433601",
  "bbob-biobj_f26_i08_d40 0.999580757097517",
  "bbob-biobj_f26_i09_d02 0.928186501872019",
  "bbob-biobj_f26_i09_d03 0.948229931197733",
  "bbob-biobj_f26_i09_d05 0.999708624389292",
  "bbob-biobj_f26_i09_d10 0.976182017061119",
  "bbob-biobj_f26_i09_d20 0.991850094961123",
  "bbob-biobj_f26_i09_d40 0.999529662180170",
  "bbob-biobj_f26_i10_d02 0.975780733014457",
  "bbob-biobj_f26_i10_d03 0.792423375244880",
  "bbob-biobj_f26_i10_d05 0.994495887173813",
  "bbob-biobj_f26_i10_d10 0.999418944318252",
  "bbob-biobj_f26_i10_d20 0.986079733726734",
  "bbob-biobj_f26_i10_d40 0.999900773346504",
  "bbob-biobj_f26_i11_d02 1.0",
  "bbob-biobj_f26_i11_d03 1.0",
  "bbob-biobj_f26_i11_d05 1.0",
  "bbob-biobj_f26_i11_d10 1.0",
  "bbob-biobj_f26_i11_d20 1.0",
  "bbob-biobj_f26_i11_d40 1.0",
  "bbob-biobj_f26_i12_d02 1.0",
  "bbob-biobj_f26_i12_d03 1.0",
  "bbob-biobj_f26_i12_d05 1.0",
  "bbob-biobj_f26_i12_d10 1.0",
  "bbob-biobj_f26_i12_d20 1.0",
  "bbob-biobj_f26_i12_d40 1.0",
  "bbob-biobj_f26_i13_d02 1.0",
  "bbob-biobj_f26_i13_d03 1.0",
  "bbob-biobj_f26_i13_d05 1.0",
  "bbob-biobj_f26_i13_d10 1.0",
  "bbob-biobj_f26_i13_d20 1.0",
  "bbob-biobj_f26_i13_d40 1.0",
  "bbob-biobj_f26_i14_d02 1.0",
  "bbob-biobj_f26_i14_d03 1.0",
  "bbob-biobj_f26_i14_d05 1.0",
  "bbob-biobj_f26_i14_d10 1.0",
  "bbob-biobj_f26_i14_d20 1.0",
  "bbob-biobj_f26_i14_d40 1.0",
  "bbob-biobj_f26_i15_d02 1.0",
  "bbob-biobj_f26_i15_d03 1.0",
  "bbob-biobj_f26_i15_d05 1.0",
  "bbob-biobj_f26_i15_d10 1.0",
  "bbob-biobj_f26_i15_d20 1.0",
  "bbob-biobj_f26_i15_d40 1.0",
  "bbob-biobj_f27_i01_d02 0.903502360859576",
  "bbob-biobj_f27_i01_d03 0.987126659857804",
  "bbob-biobj_f27_i01_d05 0.992204039648331",
  "bbob-biobj_f27_i01_d10 0.981633765867045",
  "bbob-biobj_f27_i01_d20 0.977456099993406",
  "bbob-biobj_f27_i01_d40 0.933361039015257",
  "bbob-biobj_f27_i02_d02 0.951959020655848",
  "bbob-biobj_f27_i02_d03 0.953826363356710",
  "bbob-biobj_f27_i02_d05 0.932663039854700",
  "bbob-biobj_f27_i02_d10 0.903607612085008",
  "bbob-biobj_f27_i02_d20 0.966846358922970",
  "bbob-biobj_f27_i02_d40 0.895128052744702",
  "bbob-biobj_f27_i03_d02 0.957759418302702",
  "bbob-biobj_f27_i03_d03 0.964059704651274",
  "bbob-biobj_f27_i03_d05 0.978491185290137",
  "bbob-biobj_f27_i03_d10 0.991362976843701",
  "bbob-biobj_f27_i03_d20 0.966360698252087",
  "bbob-biobj_f27_i03_d40 0.922382792737987",
  "bbob-biobj_f27_i04_d02 0.960857862516853",
  "bbob-biobj_f27_i04_d03 0.952867716096942",
  "bbob-biobj_f27_i04_d05 0.981450553799186",
  "bbob-biobj_f27_i04_d10 0.987221945469656",
  "bbob-biobj_f27_i04_d20 0.978986516494064",
  "bbob-biobj_f27_i04_d40 0.877932504329183",
  "bbob-biobj_f27_i05_d02 0.930274907344689",
  "bbob-biobj_f27_i05_d03 0.960952865988819",
  "bbob-biobj_f27_i05_d05 0.975426290474826",
  "bbob-biobj_f27_i05_d10 0.981754257654295",
  "bbob-biobj_f27_i05_d20 0.926159038181840",
  "bbob-biobj_f27_i05_d40 0.842053796842232",
  "bbob-biobj_f27_i06_d02 0.962264097364663",
  "bbob-biobj_f27_i06_d03 0.993501202677761",
  "bbob-biobj_f27_i06_d05 0.964516742175064",
  "bbob-biobj_f27_i06_d10 0.952513248144868",
  "bbob-biobj_f27_i06_d20 0.951520512743833",
  "bbob-biobj_f27_i06_d40 0.885894360808665",
  "bbob-biobj_f27_i07_d02 0.950865324455741",
  "bbob-biobj_f27_i07_d03 0.946807607449187",
  "bbob-biobj_f27_i07_d05 0.997102178147074",
  "bbob-biobj_f27_i07_d10 0.966057902059931",
  "bbob-biobj_f27_i07_d20 0.933505493507962",
  "bbob-biobj_f27_i07_d40 0.811723833872017",
  "bbob-biobj_f27_i08_d02 0.989196266545765",
  "bbob-biobj_f27_i08_d03 0.944526899527912",
  "bbob-biobj_f27_i08_d05 0.982111603130709",
  "bbob-biobj_f27_i08_d10 0.995676001826639",
  "bbob-biobj_f27_i08_d20 0.940450662237770",
  "bbob-biobj_f27_i08_d40 0.760563946752818",
  "bbob-biobj_f27_i09_d02 0.931460125810749",
  "bbob-biobj_f27_i09_d03 0.986123409450877",
  "bbob-biobj_f27_i09_d05 0.999683816880195",
  "bbob-biobj_f27_i09_d10 0.925587074782249",
  "bbob-biobj_f27_i09_d20 0.983192589804257",
  "bbob-biobj_f27_i09_d40 0.854360098666703",
  "bbob-biobj_f27_i10_d02 0.976309654875098",
  "bbob-biobj_f27_i10_d03 0.995372072303659",
  "bbob-biobj_f27_i10_d05 0.937317068589800",
  "bbob-biobj_f27_i10_d10 0.959888207198668",
  "bbob-biobj_f27_i10_d20 0.980521651346730",
  "bbob-biobj_f27_i10_d40 0.787348659613970",
  "bbob-biobj_f27_i11_d02 1.0",
  "bbob-biobj_f27_i11_d03 1.0",
  "bbob-biobj_f27_i11_d05 1.0",
  "bbob-biobj_f27_i11_d10 1.0",
  "bbob-biobj_f27_i11_d20 1.0",
  "bbob-biobj_f27_i11_d40 1.0",
  "bbob-biobj_f27_i12_d02 1.0",
  "bbob-biobj_f27_i12_d03 1.0",
  "bbob-biobj_f27_i12_d05 1.0",
  "bbob-biobj_f27_i12_d10 1.0",
  "bbob-biobj_f27_i12_d20 1.0",
  "bbob-biobj_f27_i12_d40 1.0",
  "bbob-biobj_f27_i13_d02 1.0",
  "bbob-biobj_f27_i13_d03 1.0",
  "bbob-biobj_f27_i13_d05 1.0",
  "bbob-biobj_f27_i13_d10 1.0",
  "bbob-biobj_f27_i13_d20 1.0",
  "bbob-biobj_f27_i13_d40 1.0",
  "bbob-biobj_f27_i14_d02 1.0",
  "bbob-biobj_f27_i14_d03 1.0",
  "bbob-biobj_f27_i14_d05 1.0",
  "bbob-biobj_f27_i14_d10 1.0",
  "bbob-biobj_f27_i14_d20 1.0",
  "bbob-biobj_f27_i14_d40 1.0",
  "bbob-biobj_f27_i15_d02 1.0",
  "bbob-biobj_f27_i15_d03 1.0",
  "bbob-biobj_f27_i15_d05 1.0",
  "bbob-biobj_f27_i15_d10 1.0",
  "bbob-biobj_f27_i15_d20 1.0",
  "bbob-biobj_f27_i15_d40 1.0",
  "bbob-biobj_f28_i01_d02 0.977401999066625",
  "bbob-biobj_f28_i01_d03 0.998639738664743",
  "bbob-biobj_f28_i01_d05 0.995557746846828",
  "bbob-biobj_f28_i01_d10 0.994072439832833",
  "bbob-biobj_f28_i01_d20 0.992463218537431",
  "bbob-biobj_f28_i01_d40 0.992414213096006",
  "bbob-biobj_f28_i02_d02 0.998930207760655",
  "bbob-biobj_f28_i02_d03 0.993519710437286",
  "bbob-biobj_f28_i02_d05 0.991806547665404",
  "bbob-biobj_f28_i02_d10 0.992230831814733",
  "bbob-biobj_f28_i02_d20 0.990009499042260",
  "bbob-biobj_f28_i02_d40 0.990106398998538",
  "bbob-biobj_f28_i03_d02 0.999666285076891",
  "bbob-biobj_f28_i03_d03 0.977207039636466",
  "bbob-biobj_f28_i03_d05 0.993682678054200",
  "bbob-biobj_f28_i03_d10 0.994082775916324",
  "bbob-biobj_f28_i03_d20 0.993735723579743",
  "bbob-biobj_f28_i03_d40 0.993556096096843",
  "bbob-biobj_f28_i04_d02 0.984721520157451",
  "bbob-biobj_f28_i04_d03 0.992074459843054",
  "bbob-biobj_f28_i04_d05 0.997393288512045",
  "bbob-biobj_f28_i04_d10 0.992803283337928",
  "bbob-biobj_f28_i04_d20 0.994521653588152",
  "bbob-biobj_f28_i04_d40 0.992190072632095",
  "bbob-biobj_f28_i05_d02 0.999901258252883",
  "bbob-biobj_f28_i05_d03 0.990127198930246",
  "bbob-biobj_f28_i05_d05 0.987358603286700",
  "bbob-biobj_f28_i05_d10 0.993739971345883",
  "bbob-biobj_f28_i05_d20 0.995300696754144",
  "bbob-biobj_f28_i05_d40 0.992485959020777",
  "bbob-biobj_f28_i06_d02 0.999626447634610",
  "bbob-biobj_f28_i06_d03 0.958212010427058",
  "bbob-biobj_f28_i06_d05 0.997899397583847",
  "bbob-biobj_f28_i06_d10 0.993885165299602",
  "bbob-biobj_f28_i06_d20 0.992419988958514",
  "bbob-biobj_f28_i06_d40 0.991015746943900",
  "bbob-biobj_f28_i07_d02 0.997315263406170",
  "bbob-biobj_f28_i07_d03 0.991252216118587",
  "bbob-biobj_f28_i07_d05 0.991916981494586",
  "bbob-biobj_f28_i07_d10 0.995119902702797",
  "bbob-biobj_f28_i07_d20 0.991092804449868",
  "bbob-biobj_f28_i07_d40 0.991380726848034",
  "bbob-biobj_f28_i08_d02 0.985044198727011",
  "bbob-biobj_f28_i08_d03 0.970025788092634",
  "bbob-biobj_f28_i08_d05 0.991797875341854",
  "bbob-biobj_f28_i08_d10 0.994125424477083",
  "bbob-biobj_f28_i08_d20 0.990425211605881",
  "bbob-biobj_f28_i08_d40 0.991812429475186",
  "bbob-biobj_f28_i09_d02 0.992233419283827",
  "bbob-biobj_f28_i09_d03 0.978709253453134",
  "bbob-biobj_f28_i09_d05 0.995106604135360",
  "bbob-biobj_f28_i09_d10 0.995406461110909",
  "bbob-biobj_f28_i09_d20 0.992532195946441",
  "bbob-biobj_f28_i09_d40 0.992693013689914",
  "bbob-biobj_f28_i10_d02 0.999840936604087",
  "bbob-biobj_f28_i10_d03 0.994850417699833",
  "bbob-biobj_f28_i10_d05 0.989213621719788",
  "bbob-biobj_f28_i10_d10 0.996382743554660",
  "bbob-biobj_f28_i10_d20 0.993636432001135",
  "bbob-biobj_f28_i10_d40 0.989841821448926",
  "bbob-biobj_f28_i11_d02 1.0",
  "bbob-biobj_f28_i11_d03 1.0",
  "bbob-biobj_f28_i11_d05 1.0",
  "bbob-biobj_f28_i11_d10 1.0",
  "bbob-biobj_f28_i11_d20 1.0",
  "bbob-biobj_f28_i11_d40 1.0",
  "bbob-biobj_f28_i12_d02 1.0",
  "bbob-biobj_f28_i12_d03 1.0",
  "bbob-biobj_f28_i12_d05 1.0",
  "bbob-biobj_f28_i12_d10 1.0",
  "bbob-biobj_f28_i12_d20 1.0",
  "bbob-biobj_f28_i12_d40 1.0",
  "bbob-biobj_f28_i13_d02 1.0",
  "bbob-biobj_f28_i13_d03 1.0",
  "bbob-biobj_f28_i13_d05 1.0",
  "bbob-biobj_f28_i13_d10 1.0",
  "bbob-biobj_f28_i13_d20 1.0",
  "bbob-biobj_f28_i13_d40 1.0",
  "bbob-biobj_f28_i14_d02 1.0",
  "bbob-biobj_f28_i14_d03 1.0",
  "bbob-biobj_f28_i14_d05 1.0",
  "bbob-biobj_f28_i14_d10 1.0",
  "bbob-biobj_f28_i14_d20 1.0",
  "bbob-biobj_f28_i14_d40 1.0",
  "bbob-biobj_f28_i15_d02 1.0",
  "bbob-biobj_f28_i15_d03 1.0",
  "bbob-biobj_f28_i15_d05 1.0",
  "bbob-biobj_f28_i15_d10 1.0",
  "bbob-biobj_f28_i15_d20 1.0",
  "bbob-biobj_f28_i15_d40 1.0",
  "bbob-biobj_f29_i01_d02 0.972457455413490",
  "bbob-biobj_f29_i01_d03 0.866370346657890",
  "bbob-biobj_f29_i01_d05 0.870445739074006",
  "bbob-biobj_f29_i01_d10 0.894388363117107",
  "bbob-biobj_f29_i01_d20 0.808762122504279",
  "bbob-biobj_f29_i01_d40 0.840453851920017",
  "bbob-biobj_f29_i02_d02 0.999165568899664",
  "bbob-biobj_f29_i02_d03 0.939195283003279",
  "bbob-biobj_f29_i02_d05 0.882828302937317",
  "bbob-biobj_f29_i02_d10 0.804966339230319",
  "bbob-biobj_f29_i02_d20 0.859893815195278",
  "bbob-biobj_f29_i02_d40 0.835724630030829",
  "bbob-biobj_f29_i03_d02 0.993280459075654",
  "bbob-biobj_f29_i03_d03 0.980543061350425",
  "bbob-biobj_f29_i03_d05 0.830303971380969",
  "bbob-biobj_f29_i03_d10 0.851093726256976",
  "bbob-biobj_f29_i03_d20 0.830680809881492",
  "bbob-biobj_f29_i03_d40 0.837222139669099",
  "bbob-biobj_f29_i04_d02 0.966909956807889",
  "bbob-biobj_f29_i04_d03 0.973842229090499",
  "bbob-biobj_f29_i04_d05 0.899730185027102",
  "bbob-biobj_f29_i04_d10 0.894932413687638",
  "bbob-biobj_f29_i04_d20 0.865286297173798",
  "bbob-biobj_f29_i04_d40 0.836656239480014",
  "bbob-biobj_f29_i05_d02 0.988529417699778",
  "bbob-biobj_f29_i05_d03 0.949159799844754",
  "bbob-biobj_f29_i05_d05 0.927476309493910",
  "bbob-biobj_f29_i05_d10 0.900624474319130",
  "bbob-biobj_f29_i05_d20 0.835998458242497",
  "bbob-biobj_f29_i05_d40 0.846002036747550",
  "bbob-biobj_f29_i06_d02 0.967561275916612",
  "bbob-biobj_f29_i06_d03 0.967381034072613",
  "bbob-biobj_f29_i06_d05 0.931360954695002",
  "bbob-biobj_f29_i06_d10 0.847570141723538",
  "bbob-biobj_f29_i06_d20 0.842328347108882",
  "bbob-biobj_f29_i06_d40 0.824828363278599",
  "bbob-biobj_f29_i07_d02 0.981144976196740",
  "bbob-biobj_f29_i07_d03 0.957221055688806",
  "bbob-biobj_f29_i07_d05 0.902497486504058",
  "bbob-biobj_f29_i07_d10 0.947016245190751",
  "bbob-biobj_f29_i07_d20 0.821568365741335",
  "bbob-biobj_f29_i07_d40 0.861935573164123",
  "bbob-biobj_f29_i08_d02 0.984747228463624",
  "bbob-biobj_f29_i08_d03 0.924610488247452",
  "bbob-biobj_f29_i08_d05 0.804302384537842",
  "bbob-biobj_f29_i08_d10 0.919025320584330",
  "bbob-biobj_f29_i08_d20 0.842093400939269",
  "bbob-biobj_f29_i08_d40 0.852737325066746",
  "bbob-biobj_f29_i09_d02 0.992967815171660",
  "bbob-biobj_f29_i09_d03 0.997316964918812",
  "bbob-biobj_f29_i09_d05 0.872403467217192",
  "bbob-biobj_f29_i09_d10 0.868612481971066",
  "bbob-biobj_f29_i09_d20 0.832062370273532",
  "bbob-biobj_f29_i09_d40 0.824499220933538",
  "bbob-biobj_f29_i10_d02 0.998399141958328",
  "bbob-biobj_f29_i10_d03 0.957728840680481",
  "bbob-biobj_f29_i10_d05 0.987548487098636",
  "bbob-biobj_f29_i10_d10 0.855764301444605",
  "bbob-biobj_f29_i10_d20 0.862220662567331",
  "bbob-biobj_f29_i10_d40 0.815090921214875",
  "bbob-biobj_f29_i11_d02 1.0",
  "bbob-biobj_f29_i11_d03 1.0",
  "bbob-biobj_f29_i11_d05 1.0",
  "bbob-biobj_f29_i11_d10 1.0",
  "bbob-biobj_f29_i11_d20 1.0",
  "bbob-biobj_f29_i11_d40 1.0",
  "bbob-biobj_f29_i12_d02 1.0",
  "bbob-biobj_f29_i12_d03 1.0",
  "bbob-biobj_f29_i12_d05 1.0",
  "bbob-biobj_f29_i12_d10 1.0",
  "bbob-biobj_f29_i12_d20 1.0",
  "bbob-biobj_f29_i12_d40 1.0",
  "bbob-biobj_f29_i13_d02 1.0",
  "bbob-biobj_f29_i13_d03 1.0",
  "bbob-biobj_f29_i13_d05 1.0",
  "bbob-biobj_f29_i13_d10 1.0",
  "bbob-biobj_f29_i13_d20 1.0",
  "bbob-biobj_f29_i13_d40 1.0",
  "bbob-biobj_f29_i14_d02 1.0",
  "bbob-biobj_f29_i14_d03 1.0",
  "bbob-biobj_f29_i14_d05 1.0",
  "bbob-biobj_f29_i14_d10 1.0",
  "bbob-biobj_f29_i14_d20 1.0",
  "bbob-biobj_f29_i14_d40 1.0",
  "bbob-biobj_f29_i15_d02 1.0",
  "bbob-biobj_f29_i15_d03 1.0",
  "bbob-biobj_f29_i15_d05 1.0",
  "bbob-biobj_f29_i15_d10 1.0",
  "bbob-biobj_f29_i15_d20 1.0",
  "bbob-biobj_f29_i15_d40 1.0",
  "bbob-biobj_f30_i01_d02 0.976212496500615",
  "bbob-biobj_f30_i01_d03 0.795600491238115",
  "bbob-biobj_f30_i01_d05 0.940212728170741",
  "bbob-biobj_f30_i01_d10 0.926791108055421",
  "bbob-biobj_f30_i01_d20 0.962016418104353",
  "bbob-biobj_f30_i01_d40 0.971355928747424",
  "bbob-biobj_f30_i02_d02 0.996222809065562",
  "bbob-biobj_f30_i02_d03 0.931861838448886",
  "bbob-biobj_f30_i02_d05 0.982392914075324",
  "bbob-biobj_f30_i02_d10 0.979277027146897",
  "bbob-biobj_f30_i02_d20 0.948080162530366",
  "bbob-biobj_f30_i02_d40 0.968917233282535",
  "bbob-biobj_f30_i03_d02 0.941596330281521",
  "bbob-biobj_f30_i03_d03 0.913955563877558",
  "bbob-biobj_f30_i03_d05 0.914687792830228",
  "bbob-biobj_f30_i03_d10 0.986335271790599",
  "bbob-biobj_f30_i03_d20 0.968017340368554",
  "bbob-biobj_f30_i03_d40 0.963762378676632",
  "bbob-biobj_f30_i04_d02 0.983030095609877",
  "bbob-biobj_f30_i04_d03 0.977328392211862",
  "bbob-biobj_f30_i04_d05 0.979633656408353",
  "bbob-biobj_f30_i04_d10 0.980904314822086",
  "bbob-biobj_f30_i04_d20 0.981008986766704",
  "bbob-biobj_f30_i04_d40 0.989250894160866",
  "bbob-biobj_f30_i05_d02 0.995608485934112",
  "bbob-biobj_f30_i05_d03 0.938514746776463",
  "bbob-biobj_f30_i05_d05 0.933174697747160",
  "bbob-biobj_f30_i05_d10 0.978395618518700",
  "bbob-biobj_f30_i05_d20 0.986572139258712",
  "bbob-biobj_f30_i05_d40 0.943187951117802",
  "bbob-biobj_f30_i06_d02 0.869044705496845",
  "bbob-biobj_f30_i06_d03 0.941160771663024",
  "bbob-biobj_f30_i06_d05 0.956684475241962",
  "bbob-biobj_f30_i06_d10 0.943060007508355",
  "bbob-biobj_f30_i06_d20 0.983039746676330",
  "bbob-biobj_f30_i06_d40 0.981497478183836",
  "bbob-biobj_f30_i07_d02 0.850960681023553",
  "bbob-biobj_f30_i07_d03 0.992467861821325",
  "bbob-biobj_f30_i07_d05 0.978309575157745",
  "bbob-biobj_f30_i07_d10 0.961499382394324",
  "bbob-biobj_f30_i07_d20 0.977389065119878",
  "bbob-biobj_f30_i07_d40 0.984027487033295",
  "bbob-biobj_f30_i08_d02 0.994801823711915",
  "bbob-biobj_f30_i08_d03 0.971842687259984",
  "bbob-biobj_f30_i08_d05 0.983779330291038",
  "bbob-biobj_f30_i08_d10 0.979515650534861",
  "bbob-biobj_f30_i08_d20 0.962484456332405",
  "bbob-biobj_f30_i08_d40 0.989696154928725",
  "bbob-biobj_f30_i09_d02 0.940370678583058",
  "bbob-biobj_f30_i09_d03 0.992737527012105",
  "bbob-biobj_f30_i09_d05 0.985290453392201",
  "bbob-biobj_f30_i09_d10 0.951809039137262",
  "bbob-biobj_f30_i09_d20 0.958857385033886",
  "bbob-biobj_f30_i09_d40 0.980920533375933",
  "bbob-biobj_f30_i10_d02 0.833084721027244",
  "bbob-biobj_f30_i10_d03 0.971038926173698",
  "bbob-biobj_f30_i10_d05 0.988040718239608",
  "bbob-biobj_f30_i10_d10 0.964535015378092",
  "bbob-biobj_f30_i10_d20 0.969259910717665",
  "bbob-biobj_f30_i10_d40 0.956033907644104",
  "bbob-biobj_f30_i11_d02 1.0",
  "bbob-biobj_f30_i11_d03 1.0",
  "bbob-biobj_f30_i11_d05 1.0",
  "bbob-biobj_f30_i11_d10 1.0",
  "bbob-biobj_f30_i11_d20 1.0",
  "bbob-biobj_f30_i11_d40 1.0",
  "bbob-biobj_f30_i12_d02 1.0",
  "bbob-biobj_f30_i12_d03 1.0",
  "bbob-biobj_f30_i12_d05 1.0",
  "bbob-biobj_f30_i12_d10 1.0",
  "bbob-biobj_f30_i12_d20 1.0",
  "bbob-biobj_f30_i12_d40 1.0",
  "bbob-biobj_f30_i13_d02 1.0",
  "bbob-biobj_f30_i13_d03 1.0",
  "bbob-biobj_f30_i13_d05 1.0",
  "bbob-biobj_f30_i13_d10 1.0",
  "bbob-biobj_f30_i13_d20 1.0",
  "bbob-biobj_f30_i13_d40 1.0",
  "bbob-biobj_f30_i14_d02 1.0",
  "bbob-biobj_f30_i14_d03 1.0",
  "bbob-biobj_f30_i14_d05 1.0",
  "bbob-biobj_f30_i14_d10 1.0",
  "bbob-biobj_f30_i14_d20 1.0",
  "bbob-biobj_f30_i14_d40 1.0",
  "bbob-biobj_f30_i15_d02 1.0",
  "bbob-biobj_f30_i15_d03 1.0",
  "bbob-biobj_f30_i15_d05 1.0",
  "bbob-biobj_f30_i15_d10 1.0",
  "bbob-biobj_f30_i15_d20 1.0",
  "bbob-biobj_f30_i15_d40 1.0",
  "bbob-biobj_f31_i01_d02 0.955984203318467",
  "bbob-biobj_f31_i01_d03 0.988038763109000",
  "bbob-biobj_f31_i01_d05 0.973310702562224",
  "bbob-biobj_f31_i01_d10 0.961863891126134",
  "bbob-biobj_f31_i01_d20 0.965891744541523",
  "bbob-biobj_f31_i01_d40 0.964799971076738",
  "bbob-biobj_f31_i02_d02 0.963697290724264",
  "bbob-biobj_f31_i02_d03 0.923775493019718",
  "bbob-biobj_f31_i02_d05 0.977110292317126",
  "bbob-biobj_f31_i02_d10 0.943832912280240",
  "bbob-biobj_f31_i02_d20 0.968205987196875",
  "bbob-biobj_f31_i02_d40 0.930030695053169",
  "bbob-biobj_f31_i03_d02 0.981722066734756",
  "bbob-biobj_f31_i03_d03 0.984776066232686",
  "bbob-biobj_f31_i03_d05 0.976057593637481",
  "bbob-biobj_f31_i03_d10 0.955101239990016",
  "bbob-biobj_f31_i03_d20 0.971423707814403",
  "bbob-biobj_f31_i03_d40 0.952189734459685",
  "bbob-biobj_f31_i04_d02 0.952958780406800",
  "bbob-biobj_f31_i04_d03 0.994016773366593",
  "bbob-biobj_f31_i04_d05 0.977998109456579",
  "bbob-biobj_f31_i04_d10 0.972504038682838",
  "bbob-biobj_f31_i04_d20 0.975249631453836",
  "bbob-biobj_f31_i04_d40 0.953391474750933",
  "bbob-biobj_f31_i05_d02 0.989988727984181",
  "bbob-biobj_f31_i05_d03 0.975602682258664",
  "bbob-biobj_f31_i05_d05 0.985516667669071",
  "bbob-biobj_f31_i05_d10 0.974740149273617",
  "bbob-biobj_f31_i05_d20 0.962503915381192",
  "bbob-biobj_f31_i05_d40 0.954674973148641",
  "bbob-biobj_f31_i06_d02 0.993357857224112",
  "bbob-biobj_f31_i06_d03 0.997778716569991",
  "bbob-biobj_f31_i06_d05 0.972233776312855",
  "bbob-biobj_f31_i06_d10 0.965556182517270",
  "bbob-biobj_f31_i06_d20 0.967195654811397",
  "bbob-biobj_f31_i06_d40 0.980987684830602",
  "bbob-biobj_f31_i07_d02 0.974743597398361",
  "bbob-biobj_f31_i07_d03 0.980529945532394",
  "bbob-biobj_f31_i07_d05 0.969699321870536",
  "bbob-biobj_f31_i07_d10 0.967682773907980",
  "bbob-biobj_f31_i07_d20 0.965103317096624",
  "bbob-biobj_f31_i07_d40 0.940523398304900",
  "bbob-biobj_f31_i08_d02 0.979779884141499",
  "bbob-biobj_f31_i08_d03 0.941945659669748",
  "bbob-biobj_f31_i08_d05 0.966924518837618",
  "bbob-biobj_f31_i08_d10 0.959246003469760",
  "bbob-biobj_f31_i08_d20 0.968526371519269",
  "bbob-biobj_f31_i08_d40 0.932858285108423",
  "bbob-biobj_f31_i09_d02 0.975510769784063",
  "bbob-biobj_f31_i09_d03 0.946197097176584",
  "bbob-biobj_f31_i09_d05 0.957823291215911",
  "bbob-biobj_f31_i09_d10 0.986319214118380",
  "bbob-biobj_f31_i09_d20 0.961832047996528",
  "bbob-biobj_f31_i09_d40 0.938909433905805",
  "bbob-biobj_f31_i10_d02 0.933842856787938",
  "bbob-biobj_f31_i10_d03 0.961940385993735",
  "bbob-biobj_f31_i10_d05 0.950563580668377",
  "bbob-biobj_f31_i10_d10 0.974970269649730",
  "bbob-biobj_f31_i10_d20 0.972029378489098",
  "bbob-biobj_f31_i10_d40 0.932931521286107",
  "bbob-biobj_f31_i11_d02 1.0",
  "bbob-biobj_f31_i11_d03 1.0",
  "bbob-biobj_f31_i11_d05 1.0",
  "bbob-biobj_f31_i11_d10 1.0",
  "bbob-biobj_f31_i11_d20 1.0",
  "bbob-biobj_f31_i11_d40 1.0",
  "bbob-biobj_f31_i12_d02 1.0",
  "bbob-biobj_f31_i12_d03 1.0",
  "bbob-biobj_f31_i12_d05 1.0",
  "bbob-biobj_f31_i12_d10 1.0",
  "bbob-biobj_f31_i12_d20 1.0",
  "bbob-biobj_f31_i12_d40 1.0",
  "bbob-biobj_f31_i13_d02 1.0",
  "bbob-biobj_f31_i13_d03 1.0",
  "bbob-biobj_f31_i13_d05 1.0",
  "bbob-biobj_f31_i13_d10 1.0",
  "bbob-biobj_f31_i13_d20 1.0",
  "bbob-biobj_f31_i13_d40 1.0",
  "bbob-biobj_f31_i14_d02 1.0",
  "bbob-biobj_f31_i14_d03 1.0",
  "bbob-biobj_f31_i14_d05 1.0",
  "bbob-biobj_f31_i14_d10 1.0",
  "bbob-biobj_f31_i14_d20 1.0",
  "bbob-biobj_f31_i14_d40 1.0",
  "bbob-biobj_f31_i15_d02 1.0",
  "bbob-biobj_f31_i15_d03 1.0",
  "bbob-biobj_f31_i15_d05 1.0",
  "bbob-biobj_f31_i15_d10 1.0",
  "bbob-biobj_f31_i15_d20 1.0",
  "bbob-biobj_f31_i15_d40 1.0",
  "bbob-biobj_f32_i01_d02 0.920330807593056",
  "bbob-biobj_f32_i01_d03 0.915347636063932",
  "bbob-biobj_f32_i01_d05 0.972868759339442",
  "bbob-biobj_f32_i01_d10 0.949751776226948",
  "bbob-biobj_f32_i01_d20 0.982261266068264",
  "bbob-biobj_f32_i01_d40 0.961314360293532",
  "bbob-biobj_f32_i02_d02 0.675234526590275",
  "bbob-biobj_f32_i02_d03 0.922157604765695",
  "bbob-biobj_f32_i02_d05 0.938926461979921",
  "bbob-biobj_f32_i02_d10 0.964591928399060",
  "bbob-biobj_f32_i02_d20 0.963820281610019",
  "bbob-biobj_f32_i02_d40 0.957708349242610",
  "bbob-biobj_f32_i03_d02 0.921767853591544",
  "bbob-biobj_f32_i03_d03 0.968199302056700",
  "bbob-biobj_f32_i03_d05 0.983208237869525",
  "bbob-biobj_f32_i03_d10 0.963910336376183",
  "bbob-biobj_f32_i03_d20 0.981327925011236",
  "bbob-biobj_f32_i03_d40 0.965118174109783",
  "bbob-biobj_f32_i04_d02 0.944003999651929",
  "bbob-biobj_f32_i04_d03 0.906091440313324",
  "bbob-biobj_f32_i04_d05 0.988063008394600",
  "bbob-biobj_f32_i04_d10 0.988153900557819",
  "bbob-biobj_f32_i04_d20 0.990484909433935",
  "bbob-biobj_f32_i04_d40 0.962618969844935",
  "bbob-biobj_f32_i05_d02 0.844964589477472",
  "bbob-biobj_f32_i05_d03 0.983689208376728",
  "bbob-biobj_f32_i05_d05 0.982677657147418",
  "bbob-biobj_f32_i05_d10 0.993430675481161",
  "bbob-biobj_f32_i05_d20 0.990033697332113",
  "bbob-biobj_f32_i05_d40 0.951484636110526",
  "bbob-biobj_f32_i06_d02 0.936204097698518",
  "bbob-biobj_f32_i06_d03 0.956619283725773",
  "bbob-biobj_f32_i06_d05 0.950112390592106",
  "bbob-biobj_f32_i06_d10 0.946943467616295",
  "bbob-biobj_f32_i06_d20 0.989994441779766",
  "bbob-biobj_f32_i06_d40 0.919737293782797",
  "bbob-biobj_f32_i07_d02 0.957436979340003",
  "bbob-biobj_f32_i07_d03 0.944961624486113",
  "bbob-biobj_f32_i07_d05 0.978229682653724",
  "bbob-biobj_f32_i07_d10 0.979327906952184",
  "bbob-biobj_f32_i07_d20 0.979526216532551",
  "bbob-biobj_f32_i07_d40 0.910205393765360",
  "bbob-biobj_f32_i08_d02 0.969123822394381",
  "bbob-biobj_f32_i08_d03 0.995708954595939",
  "bbob-biobj_f32_i08_d05 0.987304424437171",
  "bbob-biobj_f32_i08_d10 0.972058059457178",
  "bbob-biobj_f32_i08_d20 0.967219697949135",
  "bbob-biobj_f32_i08_d40 0.949088678292387",
  "bbob-biobj_f32_i09_d02 0.721600217882241",
  "bbob-biobj_f32_i09_d03 0.987357454724409",
  "bbob-biobj_f32_i09_d05 0.970303366825941",
  "bbob-biobj_f32_i09_d10 0.967120897293300",
  "bbob-biobj_f32_i09_d20 0.946781561034528",
  "bbob-biobj_f32_i09_d40 0.944323858726891",
  "bbob-biobj_f32_i10_d02 0.650841308813176",
  "bbob-biobj_f32_i10_d03 0.976666059973336",
  "bbob-biobj_f32_i10_d05 0.965946078228456",
  "bbob-biobj_f32_i10_d10 0.988498634332224",
  "bbob-biobj_f32_i10_d20 0.986184571295129",
  "bbob-biobj_f32_i10_d40 0.919965785330364",
  "bbob-biobj_f32_i11_d02 1.0",
  "bbob-biobj_f32_i11_d03 1.0",
  "bbob-biobj_f32_i11_d05 1.0",
  "bbob-biobj_f32_i11_d10 1.0",
  "bbob-biobj_f32_i11_d20 1.0",
  "bbob-biobj_f32_i11_d40 1.0",
  "bbob-biobj_f32_i12_d02 1.0",
  "bbob-biobj_f32_i12_d03 1.0",
  "bbob-biobj_f32_i12_d05 1.0",
  "bbob-biobj_f32_i12_d10 1.0",
  "bbob-biobj_f32_i12_d20 1.0",
  "bbob-biobj_f32_i12_d40 1.0",
  "bbob-biobj_f32_i13_d02 1.0",
  "bbob-biobj_f32_i13_d03 1.0",
  "bbob-biobj_f32_i13_d05 1.0",
  "bbob-biobj_f32_i13_d10 1.0",
  "bbob-biobj_f32_i13_d20 1.0",
  "bbob-biobj_f32_i13_d40 1.0",
  "bbob-biobj_f32_i14_d02 1.0",
  "bbob-biobj_f32_i14_d03 1.0",
  "bbob-biobj_f32_i14_d05 1.0",
  "bbob-biobj_f32_i14_d10 1.0",
  "bbob-biobj_f32_i14_d20 1.0",
  "bbob-biobj_f32_i14_d40 1.0",
  "bbob-biobj_f32_i15_d02 1.0",
  "bbob-biobj_f32_i15_d03 1.0",
  "bbob-biobj_f32_i15_d05 1.0",
  "bbob-biobj_f32_i15_d10 1.0",
  "bbob-biobj_f32_i15_d20 1.0",
  "bbob-biobj_f32_i15_d40 1.0",
  "bbob-biobj_f33_i01_d02 0.997888861007257",
  "bbob-biobj_f33_i01_d03 0.997624607259834",
  "bbob-biobj_f33_i01_d05 0.998342123785751",
  "bbob-biobj_f33_i01_d10 0.995514921361480",
  "bbob-biobj_f33_i01_d20 0.990229526419369",
  "bbob-biobj_f33_i01_d40 0.996701111011607",
  "bbob-biobj_f33_i02_d02 0.997492969261123",
  "bbob-biobj_f33_i02_d03 0.998822661203961",
  "bbob-biobj_f33_i02_d05 0.989647953655975",
  "bbob-biobj_f33_i02_d10 0.995932074985828",
  "bbob-biobj_f33_i02_d20 0.995150898775676",
  "bbob-biobj_f33_i02_d40 0.994052083498776",
  "bbob-biobj_f33_i03_d02 0.999823325771698",
  "bbob-biobj_f33_i03_d03 0.935833479827530",
  "bbob-biobj_f33_i03_d05 0.999018432915998",
  "bbob-biobj_f33_i03_d10 0.998456700267246",
  "bbob-biobj_f33_i03_d20 0.998381767176213",
  "bbob-biobj_f33_i03_d40 0.994147433157067",
  "bbob-biobj_f33_i04_d02 0.959892993583654",
  "bbob-biobj_f33_i04_d03 0.989064355606771",
  "bbob-biobj_f33_i04_d05 0.999673943582960",
  "bbob-biobj_f33_i04_d10 0.996077761850721",
  "bbob-biobj_f33_i04_d20 0.996916761370186",
  "bbob-biobj_f33_i04_d40 0.994789090637766",
  "bbob-biobj_f33_i05_d02 0.966110435471982",
  "bbob-biobj_f33_i05_d03 0.998861256315896",
  "bbob-biobj_f33_i05_d05 0.999857137978720",
  "bbob-biobj_f33_i05_d10 0.999704303631583",
  "bbob-biobj_f33_i05_d20 0.994312060281260",
  "bbob-biobj_f33_i05_d40 0.994376965244970",
  "bbob-biobj_f33_i06_d02 0.988009732046640",
  "bbob-biobj_f33_i06_d03 0.998480224248358",
  "bbob-biobj_f33_i06_d05 0.994232785423387",
  "bbob-biobj_f33_i06_d10 0.997422760448887",
  "bbob-biobj_f33_i06_d20 0.995665197211799",
  "bbob-biobj_f33_i06_d40 0.991042766384042",
  "bbob-biobj_f33_i07_d02 0.908430553337673",
  "bbob-biobj_f33_i07_d03 0.893739385154451",
  "bbob-biobj_f33_i07_d05 0.975829278284660",
  "bbob-biobj_f33_i07_d10 0.999470787751560",
  "bbob-biobj_f33_i07_d20 0.986509510317036",
  "bbob-biobj_f33_i07_d40 0.994583833048433",
  "bbob-biobj_f33_i08_d02 0.999902182898304",
  "bbob-biobj_f33_i08_d03 0.995374809986469",
  "bbob-biobj_f33_i08_d05 0.999239753141073",
  "bbob-biobj_f33_i08_d10 0.997624890172242",
  "bbob-biobj_f33_i08_d20 0.998073374826546",
  "bbob-biobj_f33_i08_d40 0.995614476200213",
  "bbob-biobj_f33_i09_d02 0.797570804275967",
  "bbob-biobj_f33_i09_d03 0.817567756795762",
  "bbob-biobj_f33_i09_d05 0.881506581668767",
  "bbob-biobj_f33_i09_d10 0.997480885377791",
  "bbob-biobj_f33_i09_d20 0.995999979147304",
  "bbob-biobj_f33_i09_d40 0.991403299118439",
  "bbob-biobj_f33_i10_d02 0.999798379887308",
  "bbob-biobj_f33_i10_d03 0.999774876932958",
  "bbob-biobj_f33_i10_d05 0.998698332765040",
  "bbob-biobj_f33_i10_d10 0.999978774834782",
  "bbob-biobj_f33_i10_d20 0.994436919909665",
  "bbob-biobj_f33_i10_d40 0.990882022342690",
  "bbob-biobj_f33_i11_d02 1.0",
  "bbob-biobj_f33_i11_d03 1.0",
  "bbob-biobj_f33_i11_d05 1.0",
  "bbob-biobj_f33_i11_d10 1.0",
  "bbob-biobj_f33_i11_d20 1.0",
  "bbob-biobj_f33_i11_d40 1.0",
  "bbob-biobj_f33_i12_d02 1.0",
  "bbob-biobj_f33_i12_d03 1.0",
  "bbob-biobj_f33_i12_d05 1.0",
  "bbob-biobj_f33_i12_d10 1.0",
  "bbob-biobj_f33_i12_d20 1.0",
  "bbob-biobj_f33_i12_d40 1.0",
  "bbob-biobj_f33_i13_d02 1.0",
  "bbob-biobj_f33_i13_d03 1.0",
  "bbob-biobj_f33_i13_d05 1.0",
  "bbob-biobj_f33_i13_d10 1.0",
  "bbob-biobj_f33_i13_d20 1.0",
  "bbob-biobj_f33_i13_d40 1.0",
  "bbob-biobj_f33_i14_d02 1.0",
  "bbob-biobj_f33_i14_d03 1.0",
  "bbob-biobj_f33_i14_d05 1.0",
  "bbob-biobj_f33_i14_d10 1.0",
  "bbob-biobj_f33_i14_d20 1.0",
  "bbob-biobj_f33_i14_d40 1.0",
  "bbob-biobj_f33_i15_d02 1.0",
  "bbob-biobj_f33_i15_d03 1.0",
  "bbob-biobj_f33_i15_d05 1.0",
  "bbob-biobj_f33_i15_d10 1.0",
  "bbob-biobj_f33_i15_d20 1.0",
  "bbob-biobj_f33_i15_d40 1.0",
  "bbob-biobj_f34_i01_d02 0.929758929322608",
  "bbob-biobj_f34_i01_d03 0.914925194601784",
  "bbob-biobj_f34_i01_d05 0.981337253946081",
  "bbob-biobj_f34_i01_d10 0.966135341522572",
  "bbob-biobj_f34_i01_d20 0.950027819314510",
  "bbob-biobj_f34_i01_d40 0.936086573703597",
  "bbob-biobj_f34_i02_d02 0.996825933655160",
  "bbob-biobj_f34_i02_d03 0.914730991843946",
  "bbob-biobj_f34_i02_d05 0.991099954828458",
  "bbob-biobj_f34_i02_d10 0.959859389596542",
  "bbob-biobj_f34_i02_d20 0.945916596486679",
  "bbob-biobj_f34_i02_d40 0.927594653284621",
  "bbob-biobj_f34_i03_d02 0.990964408471433",
  "bbob-biobj_f34_i03_d03 0.962894086641955",
  "bbob-biobj_f34_i03_d05 0.968963676660207",
  "bbob-biobj_f34_i03_d10 0.983124332815711",
  "bbob-biobj_f34_i03_d20 0.940566682476787",
  "bbob-biobj_f34_i03_d40 0.906946793901871",
  "bbob-biobj_f34_i04_d02 0.967251442667350",
  "bbob-biobj_f34_i04_d03 0.985996809599654",
  "bbob-biobj_f34_i04_d05 0.990433973580184",
  "bbob-biobj_f34_i04_d10 0.985663113470084",
  "bbob-biobj_f34_i04_d20 0.948754075971924",
  "bbob-biobj_f34_i04_d40 0.946951667926375",
  "bbob-biobj_f34_i05_d02 0.956107428609130",
  "bbob-biobj_f34_i05_d03 0.990692180330387",
  "bbob-biobj_f34_i05_d05 0.991916562797896",
  "bbob-biobj_f34_i05_d10 0.986752097164820",
  "bbob-biobj_f34_i05_d20 0.946958487980024",
  "bbob-biobj_f34_i05_d40 0.918444229830166",
  "bbob-biobj_f34_i06_d02 0.992429886449376",
  "bbob-biobj_f34_i06_d03 0.932399280827160",
  "bbob-biobj_f34_i06_d05 0.977893847715360",
  "bbob-biobj_f34_i06_d10 0.958563676459415",
  "bbob-biobj_f34_i06_d20 0.894811155382025",
  "bbob-biobj_f34_i06_d40 0.931703102080399",
  "bbob-biobj_f34_i07_d02 0.997954492490622",
  "bbob-biobj_f34_i07_d03 0.968805690123032",
  "bbob-biobj_f34_i07_d05 0.968367998531163",
  "bbob-biobj_f34_i07_d10 0.987731138382579",
  "bbob-biobj_f34_i07_d20 0.969075746932237",
  "bbob-biobj_f34_i07_d40 0.917332073668378",
  "bbob-biobj_f34_i08_d02 0.986443420424866",
  "bbob-biobj_f34_i08_d03 0.987754907741372",
  "bbob-biobj_f34_i08_d05 0.974500340117013",
  "bbob-biobj_f34_i08_d10 0.978729873615868",
  "bbob-biobj_f34_i08_d20 0.953820740741337",
  "bbob-biobj_f34_i08_d40 0.924674794407715",
  "bbob-biobj_f34_i09_d02 0.979374484880669",
  "bbob-biobj_f34_i09_d03 0.985062906638243",
  "bbob-biobj_f34_i09_d05 0.971686099090047",
  "bbob-biobj_f34_i09_d10 0.974275115903830",
  "bbob-biobj_f34_i09_d20 0.954195747728012",
  "bbob-biobj_f34_i09_d40 0.901234461994402",
  "bbob-biobj_f34_i10_d02 0.986288225521123",
  "bbob-biobj_f34_i10_d03 0.995621185099773",
  "bbob-biobj_f34_i10_d05 0.979832910022795",
  "bbob-biobj_f34_i10_d10 0.967225902546355",
  "bbob-biobj_f34_i10_d20 0.977569814442117",
  "bbob-biobj_f34_i10_d40 0.952895733599954",
  "bbob-biobj_f34_i11_d02 1.0",
  "bbob-biobj_f34_i11_d03 1.0",
  "bbob-biobj_f34_i11_d05 1.0",
  "bbob-biobj_f34_i11_d10 1.0",
  "bbob-biobj_f34_i11_d20 1.0",
  "bbob-biobj_f34_i11_d40 1.0",
  "bbob-biobj_f34_i12_d02 1.0",
  "bbob-biobj_f34_i12_d03 1.0",
  "bbob-biobj_f34_i12_d05 1.0",
  "bbob-biobj_f34_i12_d10 1.0",
  "bbob-biobj_f34_i12_d20 1.0",
  "bbob-biobj_f34_i12_d40 1.0",
  "bbob-biobj_f34_i13_d02 1.0",
  "bbob-biobj_f34_i13_d03 1.0",
  "bbob-biobj_f34_i13_d05 1.0",
  "bbob-biobj_f34_i13_d10 1.0",
  "bbob-biobj_f34_i13_d20 1.0",
  "bbob-biobj_f34_i13_d40 1.0",
  "bbob-biobj_f34_i14_d02 1.0",
  "bbob-biobj_f34_i14_d03 1.0",
  "bbob-biobj_f34_i14_d05 1.0",
  "bbob-biobj_f34_i14_d10 1.0",
  "bbob-biobj_f34_i14_d20 1.0",
  "bbob-biobj_f34_i14_d40 1.0",
  "bbob-biobj_f34_i15_d02 1.0",
  "bbob-biobj_f34_i15_d03 1.0",
  "bbob-biobj_f34_i15_d05 1.0",
  "bbob-biobj_f34_i15_d10 1.0",
  "bbob-biobj_f34_i15_d20 1.0",
  "bbob-biobj_f34_i15_d40 1.0",
  "bbob-biobj_f35_i01_d02 0.928165023377733",
  "bbob-biobj_f35_i01_d03 0.534055619821766",
  "bbob-biobj_f35_i01_d05 0.635785264847719",
  "bbob-biobj_f35_i01_d10 0.580893332905660",
  "bbob-biobj_f35_i01_d20 0.555009913932858",
  "bbob-biobj_f35_i01_d40 0.559291679999780",
  "bbob-biobj_f35_i02_d02 0.502442148070469",
  "bbob-biobj_f35_i02_d03 0.788715455127397",
  "bbob-biobj_f35_i02_d05 0.581829083029604",
  "bbob-biobj_f35_i02_d10 0.592322531696048",
  "bbob-biobj_f35_i02_d20 0.562948570954766",
  "bbob-biobj_f35_i02_d40 0.592245557480910",
  "bbob-biobj_f35_i03_d02 0.875499317155131",
  "bbob-biobj_f35_i03_d03 0.573982254861297",
  "bbob-biobj_f35_i03_d05 0.768271998392316",
  "bbob-biobj_f35_i03_d10 0.606855088657482",
  "bbob-biobj_f35_i03_d20 0.608162028996865",
  "bbob-biobj_f35_i03_d40 0.570890760357843",
  "bbob-biobj_f35_i04_d02 0.818254253194650",
  "bbob-biobj_f35_i04_d03 0.945470032951302",
  "bbob-biobj_f35_i04_d05 0.735474192489836",
  "bbob-biobj_f35_i04_d10 0.582620387060225",
  "bbob-biobj_f35_i04_d20 0.561822431849767",
  "bbob-biobj_f35_i04_d40 0.578381821406569",
  "bbob-biobj_f35_i05_d02 0.572776224251585",
  "bbob-biobj_f35_i05_d03 0.773381678533065",
  "bbob-biobj_f35_i05_d05 0.761556411704463",
  "bbob-biobj_f35_i05_d10 0.597858723534282",
  "bbob-biobj_f35_i05_d20 0.540863511855373",
  "bbob-biobj_f35_i05_d40 0.564959774511071",
  "bbob-biobj_f35_i06_d02 0.980545810362832",
  "bbob-biobj_f35_i06_d03 0.835515917249604",
  "bbob-biobj_f35_i06_d05 0.562675894859738",
  "bbob-biobj_f35_i06_d10 0.587998910768782",
  "bbob-biobj_f35_i06_d20 0.610158534435878",
  "bbob-biobj_f35_i06_d40 0.557990262720255",
  "bbob-biobj_f35_i07_d02 0.990109059705509",
  "bbob-biobj_f35_i07_d03 0.582852699773140",
  "bbob-biobj_f35_i07_d05 0.622869533970826",
  "bbob-biobj_f35_i07_d10 0.558675575323569",
  "bbob-biobj_f35_i07_d20 0.581910823709002",
  "bbob-biobj_f35_i07_d40 0.575992078136005",
  "bbob-biobj_f35_i08_d02 0.585094381837897",
  "bbob-biobj_f35_i08_d03 0.650187942772000",
  "bbob-biobj_f35_i08_d05 0.527195232798797",
  "bbob-biobj_f35_i08_d10 0.589619688257382",
  "bbob-biobj_f35_i08_d20 0.560957241658461",
  "bbob-biobj_f35_i08_d40 0.571976375123490",
  "bbob-biobj_f35_i09_d02 0.812412156635612",
  "bbob-biobj_f35_i09_d03 0.853294574665627",
  "bbob-biobj_f35_i09_d05 0.536664471012996",
  "bbob-biobj_f35_i09_d10 0.540732629900937",
  "bbob-biobj_f35_i09_d20 0.596217349423397",
  "bbob-biobj_f35_i09_d40 0.558307017123422",
  "bbob-biobj_f35_i10_d02 0.997531862926884",
  "bbob-biobj_f35_i10_d03 0.587724972246620",
  "bbob-biobj_f35_i10_d05 0.714494414954690",
  "bbob-biobj_f35_i10_d10 0.588778532125469",
  "bbob-biobj_f35_i10_d20 0.602194058692651",
  "bbob-biobj_f35_i10_d40 0.579319565668644",
  "bbob-biobj_f35_i11_d02 1.0",
  "bbob-biobj_f35_i11_d03 1.0",
  "bbob-biobj_f35_i11_d05 1.0",
  "bbob-biobj_f35_i11_d10 1.0",
  "bbob-biobj_f35_i11_d20 1.0",
  "bbob-biobj_f35_i11_d40 1.0",
  "bbob-biobj_f35_i12_d02 1.0",
  "bbob-biobj_f35_i12_d03 1.0",
  "bbob-biobj_f35_i12_d05 1.0",
  "bbob-biobj_f35_i12_d10 1.0",
  "bbob-biobj_f35_i12_d20 1.0",
  "bbob-biobj_f35_i12_d40 1.0",
  "bbob-biobj_f35_i13_d02 1.0",
  "bbob-biobj_f35_i13_d03 1.0",
  "bbob-biobj_f35_i13_d05 1.0",
  "bbob-biobj_f35_i13_d10 1.0",
  "bbob-biobj_f35_i13_d20 1.0",
  "bbob-biobj_f35_i13_d40 1.0",
  "bbob-biobj_f35_i14_d02 1.0",
  "bbob-biobj_f35_i14_d03 1.0",
  "bbob-biobj_f35_i14_d05 1.0",
  "bbob-biobj_f35_i14_d10 1.0",
  "bbob-biobj_f35_i14_d20 1.0",
  "bbob-biobj_f35_i14_d40 1.0",
  "bbob-biobj_f35_i15_d02 1.0",
  "bbob-biobj_f35_i15_d03 1.0",
  "bbob-biobj_f35_i15_d05 1.0",
  "bbob-biobj_f35_i15_d10 1.0",
  "bbob-biobj_f35_i15_d20 1.0",
  "bbob-biobj_f35_i15_d40 1.0",
  "bbob-biobj_f36_i01_d02 0.945914909650879",
  "bbob-biobj_f36_i01_d03 0.700109856462607",
  "bbob-biobj_f36_i01_d05 0.885952164445788",
  "bbob-biobj_f36_i01_d10 0.781262866659404",
  "bbob-biobj_f36_i01_d20 0.804662561948655",
  "bbob-biobj_f36_i01_d40 0.843727110022577",
  "bbob-biobj_f36_i02_d02 0.982339540243401",
  "bbob-biobj_f36_i02_d03 0.737153235635198",
  "bbob-biobj_f36_i02_d05 0.930168983454577",
  "bbob-biobj_f36_i02_d10 0.793783018152196",
  "bbob-biobj_f36_i02_d20 0.853227721845795",
  "bbob-biobj_f36_i02_d40 0.813629554178298",
  "bbob-biobj_f36_i03_d02 0.808775848047423",
  "bbob-biobj_f36_i03_d03 0.842944476275771",
  "bbob-biobj_f36_i03_d05 0.627315450736968",
  "bbob-biobj_f36_i03_d10 0.756222564706876",
  "bbob-biobj_f36_i03_d20 0.787428462209797",
  "bbob-biobj_f36_i03_d40 0.828040162624608",
  "bbob-biobj_f36_i04_d02 0.913204042095969",
  "bbob-biobj_f36_i04_d03 0.970232389126045",
  "bbob-biobj_f36_i04_d05 0.914724538410507",
  "bbob-biobj_f36_i04_d10 0.850577591819772",
  "bbob-biobj_f36_i04_d20 0.765304766819093",
  "bbob-biobj_f36_i04_d40 0.832480177648528",
  "bbob-biobj_f36_i05_d02 0.771462368593207",
  "bbob-biobj_f36_i05_d03 0.852784708249660",
  "bbob-biobj_f36_i05_d05 0.954700600300869",
  "bbob-biobj_f36_i05_d10 0.808824228788957",
  "bbob-biobj_f36_i05_d20 0.865957681426684",
  "bbob-biobj_f36_i05_d40 0.817384571058914",
  "bbob-biobj_f36_i06_d02 0.933757511624877",
  "bbob-biobj_f36_i06_d03 0.801490292261758",
  "bbob-biobj_f36_i06_d05 0.831167509137038",
  "bbob-biobj_f36_i06_d10 0.753171814797282",
  "bbob-biobj_f36_i06_d20 0.886786607453693",
  "bbob-biobj_f36_i06_d40 0.847003001535661",
  "bbob-biobj_f36_i07_d02 0.937778239862453",
  "bbob-biobj_f36_i07_d03 0.733737285335212",
  "bbob-biobj_f36_i07_d05 0.893219544430853",
  "bbob-biobj_f36_i07_d10 0.726223759918117",
  "bbob-biobj_f36_i07_d20 0.877639804021368",
  "bbob-biobj_f36_i07_d40 0.793394212282513",
  "bbob-biobj_f36_i08_d02 0.773830567033427",
  "bbob-biobj_f36_i08_d03 0.582247061486501",
  "bbob-biobj_f36_i08_d05 0.936003331558890",
  "bbob-biobj_f36_i08_d10 0.876721678494681",
  "bbob-biobj_f36_i08_d20 0.824199112721230",
  "bbob-biobj_f36_i08_d40 0.866349154828268",
  "bbob-biobj_f36_i09_d02 0.891599150476082",
  "bbob-biobj_f36_i09_d03 0.625247418888436",
  "bbob-biobj_f36_i09_d05 0.820474066076352",
  "bbob-biobj_f36_i09_d10 0.861572066804544",
  "bbob-biobj_f36_i09_d20 0.829598520946785",
  "bbob-biobj_f36_i09_d40 0.831002696373230",
  "bbob-biobj_f36_i10_d02 0.934505677966086",
  "bbob-biobj_f36_i10_d03 0.705534355336708",
  "bbob-biobj_f36_i10_d05 0.921117234905876",
  "bbob-biobj_f36_i10_d10 0.835625761352605",
  "bbob-biobj_f36_i10_d20 0.809940774549477",
  "bbob-biobj_f36_i10_d40 0.791407454276026",
  "bbob-biobj_f36_i11_d02 1.0",
  "bbob-biobj_f36_i11_d03 1.0",
  "bbob-biobj_f36_i11_d05 1.0",
  "bbob-biobj_f36_i11_d10 1.0",
  "bbob-biobj_f36_i11_d20 1.0",
  "bbob-biobj_f36_i11_d40 1.0",
  "bbob-biobj_f36_i12_d02 1.0",
  "bbob-biobj_f36_i12_d03 1.0",
  "bbob-biobj_f36_i12_d05 1.0",
  "bbob-biobj_f36_i12_d10 1.0",
  "bbob-biobj_f36_i12_d20 1.0",
  "bbob-biobj_f36_i12_d40 1.0",
  "bbob-biobj_f36_i13_d02 1.0",
  "bbob-biobj_f36_i13_d03 1.0",
  "bbob-biobj_f36_i13_d05 1.0",
  "bbob-biobj_f36_i13_d10 1.0",
  "bbob-biobj_f36_i13_d20 1.0",
  "bbob-biobj_f36_i13_d40 1.0",
  "bbob-biobj_f36_i14_d02 1.0",
  "bbob-biobj_f36_i14_d03 1.0",
  "bbob-biobj_f36_i14_d05 1.0",
  "bbob-biobj_f36_i14_d10 1.0",
  "bbob-biobj_f36_i14_d20 1.0",
  "bbob-biobj_f36_i14_d40 1.0",
  "bbob-biobj_f36_i15_d02 1.0",
  "bbob-biobj_f36_i15_d03 1.0",
  "bbob-biobj_f36_i15_d05 1.0",
  "bbob-biobj_f36_i15_d10 1.0",
  "bbob-biobj_f36_i15_d20 1.0",
  "bbob-biobj_f36_i15_d40 1.0",
  "bbob-biobj_f37_i01_d02 0.887327150785189",
  "bbob-biobj_f37_i01_d03 0.807659103583171",
  "bbob-biobj_f37_i01_d05 0.835169073581692",
  "bbob-biobj_f37_i01_d10 0.783383806133355",
  "bbob-biobj_f37_i01_d20 0.842538681321092",
  "bbob-biobj_f37_i01_d40 0.789266834004849",
  "bbob-biobj_f37_i02_d02 0.737269531615254",
  "bbob-biobj_f37_i02_d03 0.835012042630217",
  "bbob-biobj_f37_i02_d05 0.929695833351144",
  "bbob-biobj_f37_i02_d10 0.807367846432204",
  "bbob-biobj_f37_i02_d20 0.795982543055911",
  "bbob-biobj_f37_i02_d40 0.799926339032289",
  "bbob-biobj_f37_i03_d02 0.802436789939889",
  "bbob-biobj_f37_i03_d03 0.779817789428857",
  "bbob-biobj_f37_i03_d05 0.841136949398313",
  "bbob-biobj_f37_i03_d10 0.836194268914144",
  "bbob-biobj_f37_i03_d20 0.810391886715767",
  "bbob-biobj_f37_i03_d40 0.795436593770643",
  "bbob-biobj_f37_i04_d02 0.827630242603522",
  "bbob-biobj_f37_i04_d03 0.927472402212497",
  "bbob-biobj_f37_i04_d05 0.767439994597515",
  "bbob-biobj_f37_i04_d10 0.783346258032096",
  "bbob-biobj_f37_i04_d20 0.834870828901681",
  "bbob-biobj_f37_i04_d40 0.773457976069492",
  "bbob-biobj_f37_i05_d02 0.833851305921953",
  "bbob-biobj_f37_i05_d03 0.841497210688420",
  "bbob-biobj_f37_i05_d05 0.837678216567634",
  "bbob-biobj_f37_i05_d10 0.756617132180980",
  "bbob-biobj_f37_i05_d20 0.761274844547117",
  "bbob-biobj_f37_i05_d40 0.808772206948863",
  "bbob-biobj_f37_i06_d02 0.966420015253537",
  "bbob-biobj_f37_i06_d03 0.920849455423808",
  "bbob-biobj_f37_i06_d05 0.873507320873903",
  "bbob-biobj_f37_i06_d10 0.804471040357580",
  "bbob-biobj_f37_i06_d20 0.789492844708795",
  "bbob-biobj_f37_i06_d40 0.827597990486504",
  "bbob-biobj_f37_i07_d02 0.865979675631339",
  "bbob-biobj_f37_i07_d03 0.888456306531734",
  "bbob-biobj_f37_i07_d05 0.854814203846037",
  "bbob-biobj_f37_i07_d10 0.772690622496085",
  "bbob-biobj_f37_i07_d20 0.758857267001082",
  "bbob-biobj_f37_i07_d40 0.777389827183152",
  "bbob-biobj_f37_i08_d02 0.954408950578442",
  "bbob-biobj_f37_i08_d03 0.780283570455847",
  "bbob-biobj_f37_i08_d05 0.877427033200894",
  "bbob-biobj_f37_i08_d10 0.824052669824190",
  "bbob-biobj_f37_i08_d20 0.854319728694541",
  "bbob-biobj_f37_i08_d40 0.741015280728301",
  "bbob-biobj_f37_i09_d02 0.651230495436546",
  "bbob-biobj_f37_i09_d03 0.972084171390988",
  "bbob-biobj_f37_i09_d05 0.877591783597792",
  "bbob-biobj_f37_i09_d10 0.933689627469846",
  "bbob-biobj_f37_i09_d20 0.825557689086336",
  "bbob-biobj_f37_i09_d40 0.812287034624196",
  "bbob-biobj_f37_i10_d02 0.846357897009702",
  "bbob-biobj_f37_i10_d03 0.783860232975673",
  "bbob-biobj_f37_i10_d05 0.780136988735689",
  "bbob-biobj_f37_i10_d10 0.828012221896017",
  "bbob-biobj_f37_i10_d20 0.843542995824816",
  "bbob-biobj_f37_i10_d40 0.778211407123295",
  "bbob-biobj_f37_i11_d02 1.0",
  "bbob-biobj_f37_i11_d03 1.0",
  "bbob-biobj_f37_i11_d05 1.0",
  "bbob-biobj_f37_i11_d10 1.0",
  "bbob-biobj_f37_i11_d20 1.0",
  "bbob-biobj_f37_i11_d40 1.0",
  "bbob-biobj_f37_i12_d02 1.0",
  "bbob-biobj_f37_i12_d03 1.0",
  "bbob-biobj_f37_i12_d05 1.0",
  "bbob-biobj_f37_i12_d10 1.0",
  "bbob-biobj_f37_i12_d20 1.0",
  "bbob-biobj_f37_i12_d40 1.0",
  "bbob-biobj_f37_i13_d02 1.0",
  "bbob-biobj_f37_i13_d03 1.0",
  "bbob-biobj_f37_i13_d05 1.0",
  "bbob-biobj_f37_i13_d10 1.0",
  "bbob-biobj_f37_i13_d20 1.0",
  "bbob-biobj_f37_i13_d40 1.0",
  "bbob-biobj_f37_i14_d02 1.0",
  "bbob-biobj_f37_i14_d03 1.0",
  "bbob-biobj_f37_i14_d05 1.0",
  "bbob-biobj_f37_i14_d10 1.0",
  "bbob-biobj_f37_i14_d20 1.0",
  "bbob-biobj_f37_i14_d40 1.0",
  "bbob-biobj_f37_i15_d02 1.0",
  "bbob-biobj_f37_i15_d03 1.0",
  "bbob-biobj_f37_i15_d05 1.0",
  "bbob-biobj_f37_i15_d10 1.0",
  "bbob-biobj_f37_i15_d20 1.0",
  "bbob-biobj_f37_i15_d40 1.0",
  "bbob-biobj_f38_i01_d02 0.877156843506436",
  "bbob-biobj_f38_i01_d03 0.866660750237696",
  "bbob-biobj_f38_i01_d05 0.915603692393344",
  "bbob-biobj_f38_i01_d10 0.843099701921333",
  "bbob-biobj_f38_i01_d20 0.863967450160593",
  "bbob-biobj_f38_i01_d40 0.824400441198263",
  "bbob-biobj_f38_i02_d02 0.906613260227146",
  "bbob-biobj_f38_i02_d03 0.793052724368069",
  "bbob-biobj_f38_i02_d05 0.873182776085757",
  "bbob-biobj_f38_i02_d10 0.886942198063175",
  "bbob-biobj_f38_i02_d20 0.839510401884203",
  "bbob-biobj_f38_i02_d40 0.846825019783951",
  "bbob-biobj_f38_i03_d02 0.700820333532969",
  "bbob-biobj_f38_i03_d03 0.753316709210581",
  "bbob-biobj_f38_i03_d05 0.891034871722847",
  "bbob-biobj_f38_i03_d10 0.876129020211822",
  "bbob-biobj_f38_i03_d20 0.838138772336944",
  "bbob-biobj_f38_i03_d40 0.884522048799347",
  "bbob-biobj_f38_i04_d02 0.629304231237416",
  "bbob-biobj_f38_i04_d03 0.886856579988315",
  "bbob-biobj_f38_i04_d05 0.807520695902719",
  "bbob-biobj_f38_i04_d10 0.888020207269440",
  "bbob-biobj_f38_i04_d20 0.900010122202705",
  "bbob-biobj_f38_i04_d40 0.861091112317590",
  "bbob-biobj_f38_i05_d02 0.802625605762915",
  "bbob-biobj_f38_i05_d03 0.930559083395830",
  "bbob-biobj_f38_i05_d05 0.906957714667672",
  "bbob-biobj_f38_i05_d10 0.873582089195529",
  "bbob-biobj_f38_i05_d20 0.879901788772980",
  "bbob-biobj_f38_i05_d40 0.853941170248609",
  "bbob-biobj_f38_i06_d02 0.853438943384095",
  "bbob-biobj_f38_i06_d03 0.904605729077286",
  "bbob-biobj_f38_i06_d05 0.809818054476904",
  "bbob-biobj_f38_i06_d10 0.832582085732755",
  "bbob-biobj_f38_i06_d20 0.900769552940082",
  "bbob-biobj_f38_i06_d40 0.868311434245990",
  "bbob-biobj_f38_i07_d02 0.737929740773552",
  "bbob-biobj_f38_i07_d03 0.950678057069629",
  "bbob-biobj_f38_i07_d05 0.873532192074075",
  "bbob-biobj_f38_i07_d10 0.910023034171693",
  "bbob-biobj_f38_i07_d20 0.875502508826690",
  "bbob-biobj_f38_i07_d40 0.851028475183864",
  "bbob-biobj_f38_i08_d02 0.935955754649867",
  "bbob-biobj_f38_i08_d03 0.843236331688389",
  "bbob-biobj_f38_i08_d05 0.904238494052232",
  "bbob-biobj_f38_i08_d10 0.881791805051563",
  "bbob-biobj_f38_i08_d20 0.860665425596752",
  "bbob-biobj_f38_i08_d40 0.787794169083193",
  "bbob-biobj_f38_i09_d02 0.629808149332137",
  "bbob-biobj_f38_i09_d03 0.945175953384347",
  "bbob-biobj_f38_i09_d05 0.849833350256497",
  "bbob-biobj_f38_i09_d10 0.776135238303976",
  "bbob-biobj_f38_i09_d20 0.852273565562963",
  "bbob-biobj_f38_i09_d40 0.848647145774241",
  "bbob-biobj_f38_i10_d02 0.861762938112428",
  "bbob-biobj_f38_i10_d03 0.908446440795465",
  "bbob-biobj_f38_i10_d05 0.950441319887604",
  "bbob-biobj_f38_i10_d10 0.935265987677227",
  "bbob-biobj_f38_i10_d20 0.898876233462130",
  "bbob-biobj_f38_i10_d40 0.883444006163019",
  "bbob-biobj_f38_i11_d02 1.0",
  "bbob-biobj_f38_i11_d03 1.0",
  "bbob-biobj_f38_i11_d05 1.0",
  "bbob-biobj_f38_i11_d10 1.0",
  "bbob-biobj_f38_i11_d20 1.0",
  "bbob-biobj_f38_i11_d40 1.0",
  "bbob-biobj_f38_i12_d02 1.0",
  "bbob-biobj_f38_i12_d03 1.0",
  "bbob-biobj_f38_i12_d05 1.0",
  "bbob-biobj_f38_i12_d10 1.0",
  "bbob-biobj_f38_i12_d20 1.0",
  "bbob-biobj_f38_i12_d40 1.0",
  "bbob-biobj_f38_i13_d02 1.0",
  "bbob-biobj_f38_i13_d03 1.0",
  "bbob-biobj_f38_i13_d05 1.0",
  "bbob-biobj_f38_i13_d10 1.0",
  "bbob-biobj_f38_i13_d20 1.0",
  "bbob-biobj_f38_i13_d40 1.0",
  "bbob-biobj_f38_i14_d02 1.0",
  "bbob-biobj_f38_i14_d03 1.0",
  "bbob-biobj_f38_i14_d05 1.0",
  "bbob-biobj_f38_i14_d10 1.0",
  "bbob-biobj_f38_i14_d20 1.0",
  "bbob-biobj_f38_i14_d40 1.0",
  "bbob-biobj_f38_i15_d02 1.0",
  "bbob-biobj_f38_i15_d03 1.0",
  "bbob-biobj_f38_i15_d05 1.0",
  "bbob-biobj_f38_i15_d10 1.0",
  "bbob-biobj_f38_i15_d20 1.0",
  "bbob-biobj_f38_i15_d40 1.0",
  "bbob-biobj_f39_i01_d02 0.904226041231484",
  "bbob-biobj_f39_i01_d03 0.853573746699372",
  "bbob-biobj_f39_i01_d05 0.891207393990008",
  "bbob-biobj_f39_i01_d10 0.980211550827831",
  "bbob-biobj_f39_i01_d20 0.867119325562294",
  "bbob-biobj_f39_i01_d40 0.840147372120187",
  "bbob-biobj_f39_i02_d02 0.983637777721370",
  "bbob-biobj_f39_i02_d03 0.963324588533684",
  "bbob-biobj_f39_i02_d05 0.979070560169339",
  "bbob-biobj_f39_i02_d10 0.937097427270213",
  "bbob-biobj_f39_i02_d20 0.927055417557828",
  "bbob-biobj_f39_i02_d40 0.872981528838690",
  "bbob-biobj_f39_i03_d02 0.979201351160540",
  "bbob-biobj_f39_i03_d03 0.842277108051492",
  "bbob-biobj_f39_i03_d05 0.903051958458865",
  "bbob-biobj_f39_i03_d10 0.857805673867875",
  "bbob-biobj_f39_i03_d20 0.868170329189111",
  "bbob-biobj_f39_i03_d40 0.881480213422992",
  "bbob-biobj_f39_i04_d02 0.978307712731035",
  "bbob-biobj_f39_i04_d03 0.956663318916884",
  "bbob-biobj_f39_i04_d05 0.968094919360432",
  "bbob-biobj_f39_i04_d10 0.906017852170130",
  "bbob-biobj_f39_i04_d20 0.876867427446496",
  "bbob-biobj_f39_i04_d40 0.887145156397282",
  "bbob-biobj_f39_i05_d02 0.986275618889540",
  "bbob-biobj_f39_i05_d03 0.958680470699555",
  "bbob-biobj_f39_i05_d05 0.921040002155228",
  "bbob-biobj_f39_i05_d10 0.884172759606038",
  "bbob-biobj_f39_i05_d20 0.868533797925938",
  "bbob-biobj_f39_i05_d40 0.866860232364979",
  "bbob-biobj_f39_i06_d02 0.996952730131110",
  "bbob-biobj_f39_i06_d03 0.953947539293277",
  "bbob-biobj_f39_i06_d05 0.845030994798176",
  "bbob-biobj_f39_i06_d10 0.891285361180478",
  "bbob-biobj_f39_i06_d20 0.889771417560960",
  "bbob-biobj_f39_i06_d40 0.887168950613248",
  "bbob-biobj_f39_i07_d02 0.945548966985767",
  "bbob-biobj_f39_i07_d03 0.990685319479432",
  "bbob-biobj_f39_i07_d05 0.943155366283496",
  "bbob-biobj_f39_i07_d10 0.844355265733683",
  "bbob-biobj_f39_i07_d20 0.871126501732900",
  "bbob-biobj_f39_i07_d40 0.852384048442937",
  "bbob-biobj_f39_i08_d02 0.784535495200657",
  "bbob-biobj_f39_i08_d03 0.787172668018590",
  "bbob-biobj_f39_i08_d05 0.992843816462946",
  "bbob-biobj_f39_i08_d10 0.810579392397199",
  "bbob-biobj_f39_i08_d20 0.849764168665382",
  "bbob-biobj_f39_i08_d40 0.852499131000823",
  "bbob-biobj_f39_i09_d02 0.995638433562137",
  "bbob-biobj_f39_i09_d03 0.929891599701217",
  "bbob-biobj_f39_i09_d05 0.880536302208195",
  "bbob-biobj_f39_i09_d10 0.992998001826045",
  "bbob-biobj_f39_i09_d20 0.902078102558508",
  "bbob-biobj_f39_i09_d40 0.875004561638512",
  "bbob-biobj_f39_i10_d02 0.733472668213708",
  "bbob-biobj_f39_i10_d03 0.811074833803342",
  "bbob-biobj_f39_i10_d05 0.906479471448780",
  "bbob-biobj_f39_i10_d10 0.864345054451404",
  "bbob-biobj_f39_i10_d20 0.870539322571479",
  "bbob-biobj_f39_i10_d40 0.863108028491588",
  "bbob-biobj_f39_i11_d02 1.0",
  "bbob-biobj_f39_i11_d03 1.0",
  "bbob-biobj_f39_i11_d05 1.0",
  "bbob-biobj_f39_i11_d10 1.0",
  "bbob-biobj_f39_i11_d20 1.0",
  "bbob-biobj_f39_i11_d40 1.0",
  "bbob-biobj_f39_i12_d02 1.0",
  "bbob-biobj_f39_i12_d03 1.0",
  "bbob-biobj_f39_i12_d05 1.0",
  "bbob-biobj_f39_i12_d10 1.0",
  "bbob-biobj_f39_i12_d20 1.0",
  "bbob-biobj_f39_i12_d40 1.0",
  "bbob-biobj_f39_i13_d02 1.0",
  "bbob-biobj_f39_i13_d03 1.0",
  "bbob-biobj_f39_i13_d05 1.0",
  "bbob-biobj_f39_i13_d10 1.0",
  "bbob-biobj_f39_i13_d20 1.0",
  "bbob-biobj_f39_i13_d40 1.0",
  "bbob-biobj_f39_i14_d02 1.0",
  "bbob-biobj_f39_i14_d03 1.0",
  "bbob-biobj_f39_i14_d05 1.0",
  "bbob-biobj_f39_i14_d10 1.0",
  "bbob-biobj_f39_i14_d20 1.0",
  "bbob-biobj_f39_i14_d40 1.0",
  "bbob-biobj_f39_i15_d02 1.0",
  "bbob-biobj_f39_i15_d03 1.0",
  "bbob-biobj_f39_i15_d05 1.0",
  "bbob-biobj_f39_i15_d10 1.0",
  "bbob-biobj_f39_i15_d20 1.0",
  "bbob-biobj_f39_i15_d40 1.0",
  "bbob-biobj_f40_i01_d02 0.800161494536693",
  "bbob-biobj_f40_i01_d03 0.914340224327633",
  "bbob-biobj_f40_i01_d05 0.903892856481269",
  "bbob-biobj_f40_i01_d10 0.728473869257068",
  "bbob-biobj_f40_i01_d20 0.604365459168164",
  "bbob-biobj_f40_i01_d40 0.459307378153473",
  "bbob-biobj_f40_i02_d02 0.814422943992905",
  "bbob-biobj_f40_i02_d03 0.684385884079890",
  "bbob-biobj_f40_i02_d05 0.823853518802178",
  "bbob-biobj_f40_i02_d10 0.744541086997719",
  "bbob-biobj_f40_i02_d20 0.645764795297761",
  "bbob-biobj_f40_i02_d40 0.481198540236717",
  "bbob-biobj_f40_i03_d02 0.841354252700995",
  "bbob-biobj_f40_i03_d03 0.938507644904524",
  "bbob-biobj_f40_i03_d05 0.809182823776307",
  "bbob-biobj_f40_i03_d10 0.729687061912397",
  "bbob-biobj_f40_i03_d20 0.527197277062025",
  "bbob-biobj_f40_i03_d40 0.594846348813518",
  "bbob-biobj_f40_i04_d02 0.545132030408484",
  "bbob-biobj_f40_i04_d03 0.820237436915800",
  "bbob-biobj_f40_i04_d05 0.914046946523336",
  "bbob-biobj_f40_i04_d10 0.707855529463683",
  "bbob-biobj_f40_i04_d20 0.748188983914643",
  "bbob-biobj_f40_i04_d40 0.594662978172518",
  "bbob-biobj_f40_i05_d02 0.710070245743081",
  "bbob-biobj_f40_i05_d03 0.761269356172402",
  "bbob-biobj_f40_i05_d05 0.946428096409420",
  "bbob-biobj_f40_i05_d10 0.738294222442384",
  "bbob-biobj_f40_i05_d20 0.619037463430707",
  "bbob-biobj_f40_i05_d40 0.525261934519682",
  "bbob-biobj_f40_i06_d02 0.940602213917627",
  "bbob-biobj_f40_i06_d03 0.965600494584402",
  "bbob-biobj_f40_i06_d05 0.874266215663434",
  "bbob-biobj_f40_i06_d10 0.712568335159037",
  "bbob-biobj_f40_i06_d20 0.837228563460123",
  "bbob-biobj_f40_i06_d40 0.581922202344157",
  "bbob-biobj_f40_i07_d02 0.911307906444006",
  "bbob-biobj_f40_i07_d03 0.831573964105432",
  "bbob-biobj_f40_i07_d05 0.906195003329187",
  "bbob-biobj_f40_i07_d10 0.785546219384903",
  "bbob-biobj_f40_i07_d20 0.632231071888189",
  "bbob-biobj_f40_i07_d40 0.602091185443697",
  "bbob-biobj_f40_i08_d02 0.931109790953942",
  "bbob-biobj_f40_i08_d03 0.960523180912951",
  "bbob-biobj_f40_i08_d05 0.866076738417337",
  "bbob-biobj_f40_i08_d10 0.823347856120497",
  "bbob-biobj_f40_i08_d20 0.681358009427460",
  "bbob-biobj_f40_i08_d40 0.591788902137592",
  "bbob-biobj_f40_i09_d02 0.929776153108144",
  "bbob-biobj_f40_i09_d03 0.706659001418762",
  "bbob-biobj_f40_i09_d05 0.846713727987104",
  "bbob-biobj_f40_i09_d10 0.873474383102206",
  "bbob-biobj_f40_i09_d20 0.679130772298345",
  "bbob-biobj_f40_i09_d40 0.561415958634155",
  "bbob-biobj_f40_i10_d02 0.978837863487893",
  "bbob-biobj_f40_i10_d03 0.932807541759723",
  "bbob-biobj_f40_i10_d05 0.839724013939153",
  "bbob-biobj_f40_i10_d10 0.835128803151321",
  "bbob-biobj_f40_i10_d20 0.720869751773177",
  "bbob-biobj_f40_i10_d40 0.555111732383338",
  "bbob-biobj_f40_i11_d02 1.0",
  "bbob-biobj_f40_i11_d03 1.0",
  "bbob-biobj_f40_i11_d05 1.0",
  "bbob-biobj_f40_i11_d10 1.0",
  "bbob-biobj_f40_i11_d20 1.0",
  "bbob-biobj_f40_i11_d40 1.0",
  "bbob-biobj_f40_i12_d02 1.0",
  "bbob-biobj_f40_i12_d03 1.0",
  "bbob-biobj_f40_i12_d05 1.0",
  "bbob-biobj_f40_i12_d10 1.0",
  "bbob-biobj_f40_i12_d20 1.0",
  "bbob-biobj_f40_i12_d40 1.0",
  "bbob-biobj_f40_i13_d02 1.0",
  "bbob-biobj_f40_i13_d03 1.0",
  "bbob-biobj_f40_i13_d05 1.0",
  "bbob-biobj_f40_i13_d10 1.0",
  "bbob-biobj_f40_i13_d20 1.0",
  "bbob-biobj_f40_i13_d40 1.0",
  "bbob-biobj_f40_i14_d02 1.0",
  "bbob-biobj_f40_i14_d03 1.0",
  "bbob-biobj_f40_i14_d05 1.0",
  "bbob-biobj_f40_i14_d10 1.0",
  "bbob-biobj_f40_i14_d20 1.0",
  "bbob-biobj_f40_i14_d40 1.0",
  "bbob-biobj_f40_i15_d02 1.0",
  "bbob-biobj_f40_i15_d03 1.0",
  "bbob-biobj_f40_i15_d05 1.0",
  "bbob-biobj_f40_i15_d10 1.0",
  "bbob-biobj_f40_i15_d20 1.0",
  "bbob-biobj_f40_i15_d40 1.0",
  "bbob-biobj_f41_i01_d02 0.822033307817962",
  "bbob-biobj_f41_i01_d03 0.885738075689406",
  "bbob-biobj_f41_i01_d05 0.975610197116841",
  "bbob-biobj_f41_i01_d10 0.976594721097833",
  "bbob-biobj_f41_i01_d20 0.971528564301038",
  "bbob-biobj_f41_i01_d40 0.965160551572485",
  "bbob-biobj_f41_i02_d02 0.914732085156474",
  "bbob-biobj_f41_i02_d03 0.923052605100394",
  "bbob-biobj_f41_i02_d05 0.924070436138730",
  "bbob-biobj_f41_i02_d10 0.931074251640139",
  "bbob-biobj_f41_i02_d20 0.981609407937339",
  "bbob-biobj_f41_i02_d40 0.951243795129035",
  "bbob-biobj_f41_i03_d02 0.853587922588129",
  "bbob-biobj_f41_i03_d03 0.914428027190248",
  "bbob-biobj_f41_i03_d05 0.974030934514910",
  "bbob-biobj_f41_i03_d10 0.872008403001157",
  "bbob-biobj_f41_i03_d20 0.941022611913163",
  "bbob-biobj_f41_i03_d40 0.954750241529540",
  "bbob-biobj_f41_i04_d02 0.512373847991457",
  "bbob-biobj_f41_i04_d03 0.695238799108705",
  "bbob-biobj_f41_i04_d05 0.889989722498128",
  "bbob-biobj_f41_i04_d10 0.951237336242326",
  "bbob-biobj_f41_i04_d20 0.913071583840937",
  "bbob-biobj_f41_i04_d40 0.980678709328714",
  "bbob-biobj_f41_i05_d02 0.821558599298996",
  "bbob-biobj_f41_i05_d03 0.822872733697532",
  "bbob-biobj_f41_i05_d05 0.876473147087528",
  "bbob-biobj_f41_i05_d10 0.966128724260189",
  "bbob-biobj_f41_i05_d20 0.924564290390755",
  "bbob-biobj_f41_i05_d40 0.951503528251981",
  "bbob-biobj_f41_i06_d02 0.767877747901371",
  "bbob-biobj_f41_i06_d03 0.896826333117921",
  "bbob-biobj_f41_i06_d05 0.792741819695997",
  "bbob-biobj_f41_i06_d10 0.893687033801400",
  "bbob-biobj_f41_i06_d20 0.963777758984029",
  "bbob-biobj_f41_i06_d40 0.958296705553301",
  "bbob-biobj_f41_i07_d02 0.935919502696871",
  "bbob-biobj_f41_i07_d03 0.915129505092837",
  "bbob-biobj_f41_i07_d05 0.922633056935486",
  "bbob-biobj_f41_i07_d10 0.850434631393912",
  "bbob-biobj_f41_i07_d20 0.901424361629473",
  "bbob-biobj_f41_i07_d40 0.978178007181946",
  "bbob-biobj_f41_i08_d02 0.948612145014462",
  "bbob-biobj_f41_i08_d03 0.818796188016961",
  "bbob-biobj_f41_i08_d05 0.967973190423149",
  "bbob-biobj_f41_i08_d10 0.823557579779486",
  "bbob-biobj_f41_i08_d20 0.958607082914751",
  "bbob-biobj_f41_i08_d40 0.945546529248454",
  "bbob-biobj_f41_i09_d02 0.784344360812359",
  "bbob-biobj_f41_i09_d03 0.946504928270416",
  "bbob-biobj_f41_i09_d05 0.824379078684278",
  "bbob-biobj_f41_i09_d10 0.938668422809685",
  "bbob-biobj_f41_i09_d20 0.980249890151125",
  "bbob-biobj_f41_i09_d40 0.949698682084359",
  "bbob-biobj_f41_i10_d02 0.636649862585077",
  "bbob-biobj_f41_i10_d03 0.839207215249613",
  "bbob-biobj_f41_i10_d05 0.911512650028684",
  "bbob-biobj_f41_i10_d10 0.875925359818394",
  "bbob-biobj_f41_i10_d20 0.976035237647000",
  "bbob-biobj_f41_i10_d40 0.953358560472507",
  "bbob-biobj_f41_i11_d02 1.0",
  "bbob-biobj_f41_i11_d03 1.0",
  "bbob-biobj_f41_i11_d05 1.0",
  "bbob-biobj_f41_i11_d10 1.0",
  "bbob-biobj_f41_i11_d20 1.0",
  "bbob-biobj_f41_i11_d40 1.0",
  "bbob-biobj_f41_i12_d02 1.0",
  "bbob-biobj_f41_i12_d03 1.0",
  "bbob-biobj_f41_i12_d05 1.0",
  "bbob-biobj_f41_i12_d10 1.0",
  "bbob-biobj_f41_i12_d20 1.0",
  "bbob-biobj_f41_i12_d40 1.0",
  "bbob-biobj_f41_i13_d02 1.0",
  "bbob-biobj_f41_i13_d03 1.0",
  "bbob-biobj_f41_i13_d05 1.0",
  "bbob-biobj_f41_i13_d10 1.0",
  "bbob-biobj_f41_i13_d20 1.0",
  "bbob-biobj_f41_i13_d40 1.0",
  "bbob-biobj_f41_i14_d02 1.0",
  "bbob-biobj_f41_i14_d03 1.0",
  "bbob-biobj_f41_i14_d05 1.0",
  "bbob-biobj_f41_i14_d10 1.0",
  "bbob-biobj_f41_i14_d20 1.0",
  "bbob-biobj_f41_i14_d40 1.0",
  "bbob-biobj_f41_i15_d02 1.0",
  "bbob-biobj_f41_i15_d03 1.0",
  "bbob-biobj_f41_i15_d05 1.0",
  "bbob-biobj_f41_i15_d10 1.0",
  "bbob-biobj_f41_i15_d20 1.0",
  "bbob-biobj_f41_i15_d40 1.0",
  "bbob-biobj_f42_i01_d02 0.948464970307738",
  "bbob-biobj_f42_i01_d03 0.964394084499346",
  "bbob-biobj_f42_i01_d05 0.935365033796674",
  "bbob-biobj_f42_i01_d10 0.943128312717771",
  "bbob-biobj_f42_i01_d20 0.963643732031699",
  "bbob-biobj_f42_i01_d40 0.965657560445270",
  "bbob-biobj_f42_i02_d02 0.938890033676112",
  "bbob-biobj_f42_i02_d03 0.896774246071198",
  "bbob-biobj_f42_i02_d05 0.918221443136859",
  "bbob-biobj_f42_i02_d10 0.933845341832528",
  "bbob-biobj_f42_i02_d20 0.934284063910811",
  "bbob-biobj_f42_i02_d40 0.930178208511253",
  "bbob-biobj_f42_i03_d02 0.813087641534480",
  "bbob-biobj_f42_i03_d03 0.936776356752616",
  "bbob-biobj_f42_i03_d05 0.860970332418219",
  "bbob-biobj_f42_i03_d10 0.912972610994230",
  "bbob-biobj_f42_i03_d20 0.940879346362087",
  "bbob-biobj_f42_i03_d40 0.938604902807888",
  "bbob-biobj_f42_i04_d02 0.882606100873865",
  "bbob-biobj_f42_i04_d03 0.956287162433495",
  "bbob-biobj_f42_i04_d05 0.929527509865346",
  "bbob-biobj_f42_i04_d10 0.870792113484450",
  "bbob-biobj_f42_i04_d20 0.953784523505501",
  "bbob-biobj_f42_i04_d40 0.917639525057008",
  "bbob-biobj_f42_i05_d02 0.980207584330832",
  "bbob-biobj_f42_i05_d03 0.933372828275547",
  "bbob-biobj_f42_i05_d05 0.970898927457852",
  "bbob-biobj_f42_i05_d10 0.914627662372202",
  "bbob-biobj_f42_i05_d20 0.957373316635058",
  "bbob-biobj_f42_i05_d40 0.953427715660606",
  "bbob-biobj_f42_i06_d02 0.948846761282047",
  "bbob-biobj_f42_i06_d03 0.887124002044022",
  "bbob-biobj_f42_i06_d05 0.935908567200754",
  "bbob-biobj_f42_i06_d10 0.944780454333613",
  "bbob-biobj_f42_i06_d20 0.949590672140516",
  "bbob-biobj_f42_i06_d40 0.923157629370350",
  "bbob-biobj_f42_i07_d02 0.973656420019213",
  "bbob-biobj_f42_i07_d03 0.912513948568898",
  "bbob-biobj_f42_i07_d05 0.955518741476096",
  "bbob-biobj_f42_i07_d10 0.896366744021679",
  "bbob-biobj_f42_i07_d20 0.966419103159295",
  "bbob-biobj_f42_i07_d40 0.938747933877435",
  "bbob-biobj_f42_i08_d02 0.917270613774874",
  "bbob-biobj_f42_i08_d03 0.966076886108044",
  "bbob-biobj_f42_i08_d05 0.947996999410747",
  "bbob-biobj_f42_i08_d10 0.954771017540515",
  "bbob-biobj_f42_i08_d20 0.956942184799609",
  "bbob-biobj_f42_i08_d40 0.905355950827379",
  "bbob-biobj_f42_i09_d02 0.966954242919577",
  "bbob-biobj_f42_i09_d03 0.965253588182618",
  "bbob-biobj_f42_i09_d05 0.917762969301912",
  "bbob-biobj_f42_i09_d10 0.927523147148266",
  "bbob-biobj_f42_i09_d20 0.963016275684763",
  "bbob-biobj_f42_i09_d40 0.903749434997353",
  "bbob-biobj_f42_i10_d02 0.968069449243095",
  "bbob-biobj_f42_i10_d03 0.958413404226314",
  "bbob-biobj_f42_i10_d05 0.931477412814219",
  "bbob-biobj_f42_i10_d10 0.946346732258908",
  "bbob-biobj_f42_i10_d20 0.967523989495793",
  "bbob-biobj_f42_i10_d40 0.870374219537932",
  "bbob-biobj_f42_i11_d02 1.0",
  "bbob-biobj_f42_i11_d03 1.0",
  "bbob-biobj_f42_i11_d05 1.0",
  "bbob-biobj_f42_i11_d10 1.0",
  "bbob-biobj_f42_i11_d20 1.0",
  "bbob-biobj_f42_i11_d40 1.0",
  "bbob-biobj_f42_i12_d02 1.0",
  "bbob-biobj_f42_i12_d03 1.0",
  "bbob-biobj_f42_i12_d05 1.0",
  "bbob-biobj_f42_i12_d10 1.0",
  "bbob-biobj_f42_i12_d20 1.0",
  "bbob-biobj_f42_i12_d40 1.0",
  "bbob-biobj_f42_i13_d02 1.0",
  "bbob-biobj_f42_i13_d03 1.0",
  "bbob-biobj_f42_i13_d05 1.0",
  "bbob-biobj_f42_i13_d10 1.0",
  "bbob-biobj_f42_i13_d20 1.0",
  "bbob-biobj_f42_i13_d40 1.0",
  "bbob-biobj_f42_i14_d02 1.0",
  "bbob-biobj_f42_i14_d03 1.0",
  "bbob-biobj_f42_i14_d05 1.0",
  "bbob-biobj_f42_i14_d10 1.0",
  "bbob-biobj_f42_i14_d20 1.0",
  "bbob-biobj_f42_i14_d40 1.0",
  "bbob-biobj_f42_i15_d02 1.0",
  "bbob-biobj_f42_i15_d03 1.0",
  "bbob-biobj_f42_i15_d05 1.0",
  "bbob-biobj_f42_i15_d10 1.0",
  "bbob-biobj_f42_i15_d20 1.0",
  "bbob-biobj_f42_i15_d40 1.0",
  "bbob-biobj_f43_i01_d02 0.806235943768491",
  "bbob-biobj_f43_i01_d03 0.961033203638514",
  "bbob-biobj_f43_i01_d05 0.898217378671209",
  "bbob-biobj_f43_i01_d10 0.993264379743037",
  "bbob-biobj_f43_i01_d20 0.940948652738029",
  "bbob-biobj_f43_i01_d40 0.983857298283952",
  "bbob-biobj_f43_i02_d02 0.928981208319704",
  "bbob-biobj_f43_i02_d03 0.900499905679907",
  "bbob-biobj_f43_i02_d05 0.953668359506045",
  "bbob-biobj_f43_i02_d10 0.943994958453547",
  "bbob-biobj_f43_i02_d20 0.958781146064377",
  "bbob-biobj_f43_i02_d40 0.975597556762495",
  "bbob-biobj_f43_i03_d02 0.703325658552559",
  "bbob-biobj_f43_i03_d03 0.738244890811554",
  "bbob-biobj_f43_i03_d05 0.988642280121935",
  "bbob-biobj_f43_i03_d10 0.982688206261094",
  "bbob-biobj_f43_i03_d20 0.973220372898028",
  "bbob-biobj_f43_i03_d40 0.944180440428360",
  "bbob-biobj_f43_i04_d02 0.955511395205191",
  "bbob-biobj_f43_i04_d03 0.898306002923848",
  "bbob-biobj_f43_i04_d05 0.945720250592969",
  "bbob-biobj_f43_i04_d10 0.963172283120474",
  "bbob-biobj_f43_i04_d20 0.966626097868362",
  "bbob-biobj_f43_i04_d40 0.966946756102161",
  "bbob-biobj_f43_i05_d02 0.527808863109296",
  "bbob-biobj_f43_i05_d03 0.967872270114991",
  "bbob-biobj_f43_i05_d05 0.902672633183536",
  "bbob-biobj_f43_i05_d10 0.969216100402235",
  "bbob-biobj_f43_i05_d20 0.979575039404802",
  "bbob-biobj_f43_i05_d40 0.966070621705196",
  "bbob-biobj_f43_i06_d02 0.913935322722399",
  "bbob-biobj_f43_i06_d03 0.914558564989063",
  "bbob-biobj_f43_i06_d05 0.973356892013738",
  "bbob-biobj_f43_i06_d10 0.932387469095507",
  "bbob-biobj_f43_i06_d20 0.961581182505789",
  "bbob-biobj_f43_i06_d40 0.918320667845127",
  "bbob-biobj_f43_i07_d02 0.901301713558448",
  "bbob-biobj_f43_i07_d03 0.882128040824323",
  "bbob-biobj_f43_i07_d05 0.963346626771001",
  "bbob-biobj_f43_i07_d10 0.985079491142971",
  "bbob-biobj_f43_i07_d20 0.968594673624419",
  "bbob-biobj_f43_i07_d40 0.950843373521710",
  "bbob-biobj_f43_i08_d02 0.701553018378812",
  "bbob-biobj_f43_i08_d03 0.969205249181385",
  "bbob-biobj_f43_i08_d05 0.952748332982779",
  "bbob-biobj_f43_i08_d10 0.987278435011227",
  "bbob-biobj_f43_i08_d20 0.976546324177090",
  "bbob-biobj_f43_i08_d40 0.957306668204760",
  "bbob-biobj_f43_i09_d02 0.862739669961301",
  "bbob-biobj_f43_i09_d03 0.862473364865682",
  "bbob-biobj_f43_i09_d05 0.990618031218341",
  "bbob-biobj_f43_i09_d10 0.979466959858262",
  "bbob-biobj_f43_i09_d20 0.972941110626848",
  "bbob-biobj_f43_i09_d40 0.855701729006963",
  "bbob-biobj_f43_i10_d02 0.848752159713627",
  "bbob-biobj_f43_i10_d03 0.820261488990871",
  "bbob-biobj_f43_i10_d05 0.940942353330467",
  "bbob-biobj_f43_i10_d10 0.959250198964312",
  "bbob-biobj_f43_i10_d20 0.982486894377839",
  "bbob-biobj_f43_i10_d40 0.966505095865004",
  "bbob-biobj_f43_i11_d02 1.0",
  "bbob-biobj_f43_i11_d03 1.0",
  "bbob-biobj_f43_i11_d05 1.0",
  "bbob-biobj_f43_i11_d10 1.0",
  "bbob-biobj_f43_i11_d20 1.0",
  "bbob-biobj_f43_i11_d40 1.0",
  "bbob-biobj_f43_i12_d02 1.0",
  "bbob-biobj_f43_i12_d03 1.0",
  "bbob-biobj_f43_i12_d05 1.0",
  "bbob-biobj_f43_i12_d10 1.0",
  "bbob-biobj_f43_i12_d20 1.0",
  "bbob-biobj_f43_i12_d40 1.0",
  "bbob-biobj_f43_i13_d02 1.0",
  "bbob-biobj_f43_i13_d03 1.0",
  "bbob-biobj_f43_i13_d05 1.0",
  "bbob-biobj_f43_i13_d10 1.0",
  "bbob-biobj_f43_i13_d20 1.0",
  "bbob-biobj_f43_i13_d40 1.0",
  "bbob-biobj_f43_i14_d02 1.0",
  "bbob-biobj_f43_i14_d03 1.0",
  "bbob-biobj_f43_i14_d05 1.0",
  "bbob-biobj_f43_i14_d10 1.0",
  "bbob-biobj_f43_i14_d20 1.0",
  "bbob-biobj_f43_i14_d40 1.0",
  "bbob-biobj_f43_i15_d02 1.0",
  "bbob-biobj_f43_i15_d03 1.0",
  "bbob-biobj_f43_i15_d05 1.0",
  "bbob-biobj_f43_i15_d10 1.0",
  "bbob-biobj_f43_i15_d20 1.0",
  "bbob-biobj_f43_i15_d40 1.0",
  "bbob-biobj_f44_i01_d02 0.990000595892640",
  "bbob-biobj_f44_i01_d03 0.989550585423686",
  "bbob-biobj_f44_i01_d05 0.993557596127607",
  "bbob-biobj_f44_i01_d10 0.977883915649076",
  "bbob-biobj_f44_i01_d20 0.989486565699468",
  "bbob-biobj_f44_i01_d40 0.992108571259436",
  "bbob-biobj_f44_i02_d02 0.996682463157142",
  "bbob-biobj_f44_i02_d03 0.744916519935829",
  "bbob-biobj_f44_i02_d05 0.951282424534247",
  "bbob-biobj_f44_i02_d10 0.975039053298177",
  "bbob-biobj_f44_i02_d20 0.984828537903076",
  "bbob-biobj_f44_i02_d40 0.981720374250759",
  "bbob-biobj_f44_i03_d02 0.982516671080787",
  "bbob-biobj_f44_i03_d03 0.988830152101750",
  "bbob-biobj_f44_i03_d05 0.958340799855323",
  "bbob-biobj_f44_i03_d10 0.978364069931773",
  "bbob-biobj_f44_i03_d20 0.977809886620423",
  "bbob-biobj_f44_i03_d40 0.982023087875918",
  "bbob-biobj_f44_i04_d02 0.975372409782800",
  "bbob-biobj_f44_i04_d03 0.927814333720962",
  "bbob-biobj_f44_i04_d05 0.965365808549549",
  "bbob-biobj_f44_i04_d10 0.987132635647892",
  "bbob-biobj_f44_i04_d20 0.984400141874121",
  "bbob-biobj_f44_i04_d40 0.980545459880095",
  "bbob-biobj_f44_i05_d02 0.992233483129565",
  "bbob-biobj_f44_i05_d03 0.972161392354809",
  "bbob-biobj_f44_i05_d05 0.966253887504727",
  "bbob-biobj_f44_i05_d10 0.972827697321209",
  "bbob-biobj_f44_i05_d20 0.974162510436130",
  "bbob-biobj_f44_i05_d40 0.981283407181326",
  "bbob-biobj_f44_i06_d02 0.955968657960968",
  "bbob-biobj_f44_i06_d03 0.938348236403148",
  "bbob-biobj_f44_i06_d05 0.926885126651733",
  "bbob-biobj_f44_i06_d10 0.970964654710173",
  "bbob-biobj_f44_i06_d20 0.981304079255180",
  "bbob-biobj_f44_i06_d40 0.989117615203209",
  "bbob-biobj_f44_i07_d02 0.982852507134425",
  "bbob-biobj_f44_i07_d03 0.968227402387315",
  "bbob-biobj_f44_i07_d05 0.996067968789636",
  "bbob-biobj_f44_i07_d10 0.961750345752744",
  "bbob-biobj_f44_i07_d20 0.936897342317752",
  "bbob-biobj_f44_i07_d40 0.987908927174219",
  "bbob-biobj_f44_i08_d02 0.881906919128662",
  "bbob-biobj_f44_i08_d03 0.950801778125565",
  "bbob-biobj_f44_i08_d05 0.982836821697150",
  "bbob-biobj_f44_i08_d10 0.976118709915315",
  "bbob-biobj_f44_i08_d20 0.985350032800047",
  "bbob-biobj_f44_i08_d40 0.981973075253610",
  "bbob-biobj_f44_i09_d02 0.974727927786401",
  "bbob-biobj_f44_i09_d03 0.993236716308686",
  "bbob-biobj_f44_i09_d05 0.952963758145309",
  "bbob-biobj_f44_i09_d10 0.966612414910251",
  "bbob-biobj_f44_i09_d20 0.996512281009713",
  "bbob-biobj_f44_i09_d40 0.991905893016871",
  "bbob-biobj_f44_i10_d02 0.742777154829549",
  "bbob-biobj_f44_i10_d03 0.788223027934632",
  "bbob-biobj_f44_i10_d05 0.997556014152405",
  "bbob-biobj_f44_i10_d10 0.974890816409705",
  "bbob-biobj_f44_i10_d20 0.961984655728772",
  "bbob-biobj_f44_i10_d40 0.984830506106585",
  "bbob-biobj_f44_i11_d02 1.0",
  "bbob-biobj_f44_i11_d03 1.0",
  "bbob-biobj_f44_i11_d05 1.0",
  "bbob-biobj_f44_i11_d10 1.0",
  "bbob-biobj_f44_i11_d20 1.0",
  "bbob-biobj_f44_i11_d40 1.0",
  "bbob-biobj_f44_i12_d02 1.0",
  "bbob-biobj_f44_i12_d03 1.0",
  "bbob-biobj_f44_i12_d05 1.0",
  "bbob-biobj_f44_i12_d10 1.0",
  "bbob-biobj_f44_i12_d20 1.0",
  "bbob-biobj_f44_i12_d40 1.0",
  "bbob-biobj_f44_i13_d02 1.0",
  "bbob-biobj_f44_i13_d03 1.0",
  "bbob-biobj_f44_i13_d05 1.0",
  "bbob-biobj_f44_i13_d10 1.0",
  "bbob-biobj_f44_i13_d20 1.0",
  "bbob-biobj_f44_i13_d40 1.0",
  "bbob-biobj_f44_i14_d02 1.0",
  "bbob-biobj_f44_i14_d03 1.0",
  "bbob-biobj_f44_i14_d05 1.0",
  "bbob-biobj_f44_i14_d10 1.0",
  "bbob-biobj_f44_i14_d20 1.0",
  "bbob-biobj_f44_i14_d40 1.0",
  "bbob-biobj_f44_i15_d02 1.0",
  "bbob-biobj_f44_i15_d03 1.0",
  "bbob-biobj_f44_i15_d05 1.0",
  "bbob-biobj_f44_i15_d10 1.0",
  "bbob-biobj_f44_i15_d20 1.0",
  "bbob-biobj_f44_i15_d40 1.0",
  "bbob-biobj_f45_i01_d02 0.951720778563444",
  "bbob-biobj_f45_i01_d03 0.828188774139641",
  "bbob-biobj_f45_i01_d05 0.917829241994999",
  "bbob-biobj_f45_i01_d10 0.962469633903938",
  "bbob-biobj_f45_i01_d20 0.916304775084538",
  "bbob-biobj_f45_i01_d40 0.785675041892531",
  "bbob-biobj_f45_i02_d02 0.797328068544284",
  "bbob-biobj_f45_i02_d03 0.976528938897792",
  "bbob-biobj_f45_i02_d05 0.892698290420688",
  "bbob-biobj_f45_i02_d10 0.937581779101428",
  "bbob-biobj_f45_i02_d20 0.852142004666287",
  "bbob-biobj_f45_i02_d40 0.842088275967232",
  "bbob-biobj_f45_i03_d02 0.729950961654969",
  "bbob-biobj_f45_i03_d03 0.953106329190224",
  "bbob-biobj_f45_i03_d05 0.953232088542056",
  "bbob-biobj_f45_i03_d10 0.939036646431562",
  "bbob-biobj_f45_i03_d20 0.945642771814716",
  "bbob-biobj_f45_i03_d40 0.870390002108839",
  "bbob-biobj_f45_i04_d02 0.962996637246124",
  "bbob-biobj_f45_i04_d03 0.954354478584170",
  "bbob-biobj_f45_i04_d05 0.946648046778442",
  "bbob-biobj_f45_i04_d10 0.932574403452305",
  "bbob-biobj_f45_i04_d20 0.929155103399460",
  "bbob-biobj_f45_i04_d40 0.920627283625365",
  "bbob-biobj_f45_i05_d02 0.924715343675183",
  "bbob-biobj_f45_i05_d03 0.942411861147468",
  "bbob-biobj_f45_i05_d05 0.909309881321831",
  "bbob-biobj_f45_i05_d10 0.875483160778896",
  "bbob-biobj_f45_i05_d20 0.913250748248638",
  "bbob-biobj_f45_i05_d40 0.885145586412210",
  "bbob-biobj_f45_i06_d02 0.904151517470615",
  "bbob-biobj_f45_i06_d03 0.926797766252780",
  "bbob-biobj_f45_i06_d05 0.908617558889420",
  "bbob-biobj_f45_i06_d10 0.974109498807929",
  "bbob-biobj_f45_i06_d20 0.850302309800901",
  "bbob-biobj_f45_i06_d40 0.845186435780144",
  "bbob-biobj_f45_i07_d02 0.436539479783815",
  "bbob-biobj_f45_i07_d03 0.967414649977868",
  "bbob-biobj_f45_i07_d05 0.948236042645629",
  "bbob-biobj_f45_i07_d10 0.960582199925476",
  "bbob-biobj_f45_i07_d20 0.868675710134838",
  "bbob-biobj_f45_i07_d40 0.882136275227096",
  "bbob-biobj_f45_i08_d02 0.780758545153498",
  "bbob-biobj_f45_i08_d03 0.986355057252456",
  "bbob-biobj_f45_i08_d05 0.971723931694909",
  "bbob-biobj_f45_i08_d10 0.895507628923304",
  "bbob-biobj_f45_i08_d20 0.920745397390923",
  "bbob-biobj_f45_i08_d40 0.935690944028907",
  "bbob-biobj_f45_i09_d02 0.717458466488061",
  "bbob-biobj_f45_i09_d03 0.983845938391830",
  "bbob-biobj_f45_i09_d05 0.661805959381686",
  "bbob-biobj_f45_i09_d10 0.944316649954434",
  "bbob-biobj_f45_i09_d20 0.879514185323017",
  "bbob-biobj_f45_i09_d40 0.874909222653475",
  "bbob-biobj_f45_i10_d02 0.963315916430492",
  "bbob-biobj_f45_i10_d03 0.911574142441829",
  "bbob-biobj_f45_i10_d05 0.888738706562716",
  "bbob-biobj_f45_i10_d10 0.921140534269231",
  "bbob-biobj_f45_i10_d20 0.919843625609510",
  "bbob-biobj_f45_i10_d40 0.862108899490471",
  "bbob-biobj_f45_i11_d02 1.0",
  "bbob-biobj_f45_i11_d03 1.0",
  "bbob-biobj_f45_i11_d05 1.0",
  "bbob-biobj_f45_i11_d10 1.0",
  "bbob-biobj_f45_i11_d20 1.0",
  "bbob-biobj_f45_i11_d40 1.0",
  "bbob-biobj_f45_i12_d02 1.0",
  "bbob-biobj_f45_i12_d03 1.0",
  "bbob-biobj_f45_i12_d05 1.0",
  "bbob-biobj_f45_i12_d10 1.0",
  "bbob-biobj_f45_i12_d20 1.0",
  "bbob-biobj_f45_i12_d40 1.0",
  "bbob-biobj_f45_i13_d02 1.0",
  "bbob-biobj_f45_i13_d03 1.0",
  "bbob-biobj_f45_i13_d05 1.0",
  "bbob-biobj_f45_i13_d10 1.0",
  "bbob-biobj_f45_i13_d20 1.0",
  "bbob-biobj_f45_i13_d40 1.0",
  "bbob-biobj_f45_i14_d02 1.0",
  "bbob-biobj_f45_i14_d03 1.0",
  "bbob-biobj_f45_i14_d05 1.0",
  "bbob-biobj_f45_i14_d10 1.0",
  "bbob-biobj_f45_i14_d20 1.0",
  "bbob-biobj_f45_i14_d40 1.0",
  "bbob-biobj_f45_i15_d02 1.0",
  "bbob-biobj_f45_i15_d03 1.0",
  "bbob-biobj_f45_i15_d05 1.0",
  "bbob-biobj_f45_i15_d10 1.0",
  "bbob-biobj_f45_i15_d20 1.0",
  "bbob-biobj_f45_i15_d40 1.0",
  "bbob-biobj_f46_i01_d02 0.761066104646006",
  "bbob-biobj_f46_i01_d03 0.903455657283090",
  "bbob-biobj_f46_i01_d05 0.947155255052143",
  "bbob-biobj_f46_i01_d10 0.919954436328063",
  "bbob-biobj_f46_i01_d20 0.945598418627500",
  "bbob-biobj_f46_i01_d40 0.854396387596525",
  "bbob-biobj_f46_i02_d02 0.848797542826665",
  "bbob-biobj_f46_i02_d03 0.962407933268246",
  "bbob-biobj_f46_i02_d05 0.903214891429348",
  "bbob-biobj_f46_i02_d10 0.909587131133991",
  "bbob-biobj_f46_i02_d20 0.966860028053004",
  "bbob-biobj_f46_i02_d40 0.870595248224547",
  "bbob-biobj_f46_i03_d02 0.924046984238807",
  "bbob-biobj_f46_i03_d03 0.899715614728189",
  "bbob-biobj_f46_i03_d05 0.893336832760998",
  "bbob-biobj_f46_i03_d10 0.895450896546758",
  "bbob-biobj_f46_i03_d20 0.927204345279249",
  "bbob-biobj_f46_i03_d40 0.891228213110070",
  "bbob-biobj_f46_i04_d02 0.934267008284511",
  "bbob-biobj_f46_i04_d03 0.892788551956789",
  "bbob-biobj_f46_i04_d05 0.909706115828279",
  "bbob-biobj_f46_i04_d10 0.908484577426152",
  "bbob-biobj_f46_i04_d20 0.942407577748297",
  "bbob-biobj_f46_i04_d40 0.945168681141010",
  "bbob-biobj_f46_i05_d02 0.925925620986090",
  "bbob-biobj_f46_i05_d03 0.846193701948347",
  "bbob-biobj_f46_i05_d05 0.942645632857587",
  "bbob-biobj_f46_i05_d10 0.901215565547812",
  "bbob-biobj_f46_i05_d20 0.908885610056779",
  "bbob-biobj_f46_i05_d40 0.922071009546490",
  "bbob-biobj_f46_i06_d02 0.860734962124473",
  "bbob-biobj_f46_i06_d03 0.909512574555902",
  "bbob-biobj_f46_i06_d05 0.912395540418240",
  "bbob-biobj_f46_i06_d10 0.945879219145466",
  "bbob-biobj_f46_i06_d20 0.934417784485787",
  "bbob-biobj_f46_i06_d40 0.896824860378772",
  "bbob-biobj_f46_i07_d02 0.839634628439667",
  "bbob-biobj_f46_i07_d03 0.924631055190915",
  "bbob-biobj_f46_i07_d05 0.905744579684656",
  "bbob-biobj_f46_i07_d10 0.936001504422621",
  "bbob-biobj_f46_i07_d20 0.931713066453506",
  "bbob-biobj_f46_i07_d40 0.844508631054395",
  "bbob-biobj_f46_i08_d02 0.936215978446970",
  "bbob-biobj_f46_i08_d03 0.935361352163704",
  "bbob-biobj_f46_i08_d05 0.930770425017802",
  "bbob-biobj_f46_i08_d10 0.940363563270556",
  "bbob-biobj_f46_i08_d20 0.901716131910073",
  "bbob-biobj_f46_i08_d40 0.876036789920220",
  "bbob-biobj_f46_i09_d02 0.883558016602446",
  "bbob-biobj_f46_i09_d03 0.961217059863281",
  "bbob-biobj_f46_i09_d05 0.920512705062287",
  "bbob-biobj_f46_i09_d10 0.915637929973320",
  "bbob-biobj_f46_i09_d20 0.919588637937134",
  "bbob-biobj_f46_i09_d40 0.832647572651101",
  "bbob-biobj_f46_i10_d02 0.881302389490815",
  "bbob-biobj_f46_i10_d03 0.912389800404993",
  "bbob-biobj_f46_i10_d05 0.950846397090625",
  "bbob-biobj_f46_i10_d10 0.940838283358756",
  "bbob-biobj_f46_i10_d20 0.957739921106021",
  "bbob-biobj_f46_i10_d40 0.866216426397061",
  "bbob-biobj_f46_i11_d02 1.0",
  "bbob-biobj_f46_i11_d03 1.0",
  "bbob-biobj_f46_i11_d05 1.0",
  "bbob-biobj_f46_i11_d10 1.0",
  "bbob-biobj_f46_i11_d20 1.0",
  "bbob-biobj_f46_i11_d40 1.0",
  "bbob-biobj_f46_i12_d02 1.0",
  "bbob-biobj_f46_i12_d03 1.0",
  "bbob-biobj_f46_i12_d05 1.0",
  "bbob-biobj_f46_i12_d10 1.0",
  "bbob-biobj_f46_i12_d20 1.0",
  "bbob-biobj_f46_i12_d40 1.0",
  "bbob-biobj_f46_i13_d02 1.0",
  "bbob-biobj_f46_i13_d03 1.0",
  "bbob-biobj_f46_i13_d05 1.0",
  "bbob-biobj_f46_i13_d10 1.0",
  "bbob-biobj_f46_i13_d20 1.0",
  "bbob-biobj_f46_i13_d40 1.0",
  "bbob-biobj_f46_i14_d02 1.0",
  "bbob-biobj_f46_i14_d03 1.0",
  "bbob-biobj_f46_i14_d05 1.0",
  "bbob-biobj_f46_i14_d10 1.0",
  "bbob-biobj_f46_i14_d20 1.0",
  "bbob-biobj_f46_i14_d40 1.0",
  "bbob-biobj_f46_i15_d02 1.0",
  "bbob-biobj_f46_i15_d03 1.0",
  "bbob-biobj_f46_i15_d05 1.0",
  "bbob-biobj_f46_i15_d10 1.0",
  "bbob-biobj_f46_i15_d20 1.0",
  "bbob-biobj_f46_i15_d40 1.0",
  "bbob-biobj_f47_i01_d02 0.712272111791356",
  "bbob-biobj_f47_i01_d03 0.868966645319236",
  "bbob-biobj_f47_i01_d05 0.942803986114097",
  "bbob-biobj_f47_i01_d10 0.958595956960254",
  "bbob-biobj_f47_i01_d20 0.956311217436412",
  "bbob-biobj_f47_i01_d40 0.897754675221834",
  "bbob-biobj_f47_i02_d02 0.939177930209109",
  "bbob-biobj_f47_i02_d03 0.954707497948604",
  "bbob-biobj_f47_i02_d05 0.930188556236347",
  "bbob-biobj_f47_i02_d10 0.907412646523823",
  "bbob-biobj_f47_i02_d20 0.957628844998111",
  "bbob-biobj_f47_i02_d40 0.897070275922110",
  "bbob-biobj_f47_i03_d02 0.739793311026710",
  "bbob-biobj_f47_i03_d03 0.961193348929021",
  "bbob-biobj_f47_i03_d05 0.976761772334493",
  "bbob-biobj_f47_i03_d10 0.947746576774328",
  "bbob-biobj_f47_i03_d20 0.948952272573593",
  "bbob-biobj_f47_i03_d40 0.910206700506767",
  "bbob-biobj_f47_i04_d02 0.779551399583096",
  "bbob-biobj_f47_i04_d03 0.940080659208807",
  "bbob-biobj_f47_i04_d05 0.923138847386112",
  "bbob-biobj_f47_i04_d10 0.954607220664130",
  "bbob-biobj_f47_i04_d20 0.950790324701075",
  "bbob-biobj_f47_i04_d40 0.959029969929543",
  "bbob-biobj_f47_i05_d02 0.944459738086973",
  "bbob-biobj_f47_i05_d03 0.910114477537581",
  "bbob-biobj_f47_i05_d05 0.870342540144716",
  "bbob-biobj_f47_i05_d10 0.976767183928314",
  "bbob-biobj_f47_i05_d20 0.925275080789924",
  "bbob-biobj_f47_i05_d40 0.960071913752091",
  "bbob-biobj_f47_i06_d02 0.844227429918601",
  "bbob-biobj_f47_i06_d03 0.970327206332497",
  "bbob-biobj_f47_i06_d05 0.923220981670475",
  "bbob-biobj_f47_i06_d10 0.958667740503491",
  "bbob-biobj_f47_i06_d20 0.963271559272385",
  "bbob-biobj_f47_i06_d40 0.889244323840422",
  "bbob-biobj_f47_i07_d02 0.868593925185596",
  "bbob-biobj_f47_i07_d03 0.831195707749476",
  "bbob-biobj_f47_i07_d05 0.973478443591967",
  "bbob-biobj_f47_i07_d10 0.981014053828823",
  "bbob-biobj_f47_i07_d20 0.990613064893604",
  "bbob-biobj_f47_i07_d40 0.892267489922570",
  "bbob-biobj_f47_i08_d02 0.958237497140224",
  "bbob-biobj_f47_i08_d03 0.914357101153653",
  "bbob-biobj_f47_i08_d05 0.925329224941109",
  "bbob-biobj_f47_i08_d10 0.955671208532904",
  "bbob-biobj_f47_i08_d20 0.960990198339395",
  "bbob-biobj_f47_i08_d40 0.899984046495390",
  "bbob-biobj_f47_i09_d02 0.889918311037458",
  "bbob-biobj_f47_i09_d03 0.962481922443155",
  "bbob-biobj_f47_i09_d05 0.951487158898893",
  "bbob-biobj_f47_i09_d10 0.938769098398943",
  "bbob-biobj_f47_i09_d20 0.942997363149960",
  "bbob-biobj_f47_i09_d40 0.855410552220298",
  "bbob-biobj_f47_i10_d02 0.645459744382548",
  "bbob-biobj_f47_i10_d03 0.900594867338457",
  "bbob-biobj_f47_i10_d05 0.913296663358001",
  "bbob-biobj_f47_i10_d10 0.955661889534839",
  "bbob-biobj_f47_i10_d20 0.957137531350378",
  "bbob-biobj_f47_i10_d40 0.817284464911829",
  "bbob-biobj_f47_i11_d02 1.0",
  "bbob-biobj_f47_i11_d03 1.0",
  "bbob-biobj_f47_i11_d05 1.0",
  "bbob-biobj_f47_i11_d10 1.0",
  "bbob-biobj_f47_i11_d20 1.0",
  "bbob-biobj_f47_i11_d40 1.0",
  "bbob-biobj_f47_i12_d02 1.0",
  "bbob-biobj_f47_i12_d03 1.0",
  "bbob-biobj_f47_i12_d05 1.0",
  "bbob-biobj_f47_i12_d10 1.0",
  "bbob-biobj_f47_i12_d20 1.0",
  "bbob-biobj_f47_i12_d40 1.0",
  "bbob-biobj_f47_i13_d02 1.0",
  "bbob-biobj_f47_i13_d03 1.0",
  "bbob-biobj_f47_i13_d05 1.0",
  "bbob-biobj_f47_i13_d10 1.0",
  "bbob-biobj_f47_i13_d20 1.0",
  "bbob-biobj_f47_i13_d40 1.0",
  "bbob-biobj_f47_i14_d02 1.0",
  "bbob-biobj_f47_i14_d03 1.0",
  "bbob-biobj_f47_i14_d05 1.0",
  "bbob-biobj_f47_i14_d10 1.0",
  "bbob-biobj_f47_i14_d20 1.0",
  "bbob-biobj_f47_i14_d40 1.0",
  "bbob-biobj_f47_i15_d02 1.0",
  "bbob-biobj_f47_i15_d03 1.0",
  "bbob-biobj_f47_i15_d05 1.0",
  "bbob-biobj_f47_i15_d10 1.0",
  "bbob-biobj_f47_i15_d20 1.0",
  "bbob-biobj_f47_i15_d40 1.0",
  "bbob-biobj_f48_i01_d02 0.848026567036178",
  "bbob-biobj_f48_i01_d03 0.973370144857933",
  "bbob-biobj_f48_i01_d05 0.970800527122283",
  "bbob-biobj_f48_i01_d10 0.975895168240419",
  "bbob-biobj_f48_i01_d20 0.973375090620421",
  "bbob-biobj_f48_i01_d40 0.967214456244375",
  "bbob-biobj_f48_i02_d02 0.994793675128085",
  "bbob-biobj_f48_i02_d03 0.870173205353387",
  "bbob-biobj_f48_i02_d05 0.991213945773693",
  "bbob-biobj_f48_i02_d10 0.987508273428610",
  "bbob-biobj_f48_i02_d20 0.974128630034868",
  "bbob-biobj_f48_i02_d40 0.950354813207245",
  "bbob-biobj_f48_i03_d02 0.974655409279260",
  "bbob-biobj_f48_i03_d03 0.980825113451769",
  "bbob-biobj_f48_i03_d05 0.992968816240894",
  "bbob-biobj_f48_i03_d10 0.980232053391337",
  "bbob-biobj_f48_i03_d20 0.973440818791231",
  "bbob-biobj_f48_i03_d40 0.963798862128042",
  "bbob-biobj_f48_i04_d02 0.991892550874017",
  "bbob-biobj_f48_i04_d03 0.977081432021119",
  "bbob-biobj_f48_i04_d05 0.979439532610778",
  "bbob-biobj_f48_i04_d10 0.971231534195990",
  "bbob-biobj_f48_i04_d20 0.985547755790250",
  "bbob-biobj_f48_i04_d40 0.963752407198306",
  "bbob-biobj_f48_i05_d02 0.988654650933056",
  "bbob-biobj_f48_i05_d03 0.980478926766229",
  "bbob-biobj_f48_i05_d05 0.973958153574718",
  "bbob-biobj_f48_i05_d10 0.988012377114494",
  "bbob-biobj_f48_i05_d20 0.964751207182267",
  "bbob-biobj_f48_i05_d40 0.974037853059613",
  "bbob-biobj_f48_i06_d02 0.389161282124619",
  "bbob-biobj_f48_i06_d03 0.992882959391076",
  "bbob-biobj_f48_i06_d05 0.970629126722307",
  "bbob-biobj_f48_i06_d10 0.983341943001059",
  "bbob-biobj_f48_i06_d20 0.970668477893046",
  "bbob-biobj_f48_i06_d40 0.939575270632468",
  "bbob-biobj_f48_i07_d02 0.986578674413247",
  "bbob-biobj_f48_i07_d03 0.985043874797828",
  "bbob-biobj_f48_i07_d05 0.988805264493350",
  "bbob-biobj_f48_i07_d10 0.982119946475616",
  "bbob-biobj_f48_i07_d20 0.993810678267889",
  "bbob-biobj_f48_i07_d40 0.923761463863783",
  "bbob-biobj_f48_i08_d02 0.954772791083423",
  "bbob-biobj_f48_i08_d03 0.954650939645044",
  "bbob-biobj_f48_i08_d05 0.972928647840613",
  "bbob-biobj_f48_i08_d10 0.974914493338424",
  "bbob-biobj_f48_i08_d20 0.987509150847552",
  "bbob-biobj_f48_i08_d40 0.934297273342588",
  "bbob-biobj_f48_i09_d02 0.957382149250395",
  "bbob-biobj_f48_i09_d03 0.953072541289578",
  "bbob-biobj_f48_i09_d05 0.976017541500116",
  "bbob-biobj_f48_i09_d10 0.992404633270568",
  "bbob-biobj_f48_i09_d20 0.980543548849746",
  "bbob-biobj_f48_i09_d40 0.925438387242997",
  "bbob-biobj_f48_i10_d02 0.993959990229703",
  "bbob-biobj_f48_i10_d03 0.983284115742582",
  "bbob-biobj_f48_i10_d05 0.974352914287965",
  "bbob-biobj_f48_i10_d10 0.994718446676883",
  "bbob-biobj_f48_i10_d20 0.988265396177716",
  "bbob-biobj_f48_i10_d40 0.914954240869837",
  "bbob-biobj_f48_i11_d02 1.0",
  "bbob-biobj_f48_i11_d03 1.0",
  "bbob-biobj_f48_i11_d05 1.0",
  "bbob-biobj_f48_i11_d10 1.0",
  "bbob-biobj_f48_i11_d20 1.0",
  "bbob-biobj_f48_i11_d40 1.0",
  "bbob-biobj_f48_i12_d02 1.0",
  "bbob-biobj_f48_i12_d03 1.0",
  "bbob-biobj_f48_i12_d05 1.0",
  "bbob-biobj_f48_i12_d10 1.0",
  "bbob-biobj_f48_i12_d20 1.0",
  "bbob-biobj_f48_i12_d40 1.0",
  "bbob-biobj_f48_i13_d02 1.0",
  "bbob-biobj_f48_i13_d03 1.0",
  "bbob-biobj_f48_i13_d05 1.0",
  "bbob-biobj_f48_i13_d10 1.0",
  "bbob-biobj_f48_i13_d20 1.0",
  "bbob-biobj_f48_i13_d40 1.0",
  "bbob-biobj_f48_i14_d02 1.0",
  "bbob-biobj_f48_i14_d03 1.0",
  "bbob-biobj_f48_i14_d05 1.0",
  "bbob-biobj_f48_i14_d10 1.0",
  "bbob-biobj_f48_i14_d20 1.0",
  "bbob-biobj_f48_i14_d40 1.0",
  "bbob-biobj_f48_i15_d02 1.0",
  "bbob-biobj_f48_i15_d03 1.0",
  "bbob-biobj_f48_i15_d05 1.0",
  "bbob-biobj_f48_i15_d10 1.0",
  "bbob-biobj_f48_i15_d20 1.0",
  "bbob-biobj_f48_i15_d40 1.0",
  "bbob-biobj_f49_i01_d02 0.926653583269295",
  "bbob-biobj_f49_i01_d03 0.957627451209422",
  "bbob-biobj_f49_i01_d05 0.956464400283289",
  "bbob-biobj_f49_i01_d10 0.924691143308051",
  "bbob-biobj_f49_i01_d20 0.883001271777902",
  "bbob-biobj_f49_i01_d40 0.808010446209920",
  "bbob-biobj_f49_i02_d02 0.961467454994650",
  "bbob-biobj_f49_i02_d03 0.946679568656762",
  "bbob-biobj_f49_i02_d05 0.955517449441158",
  "bbob-biobj_f49_i02_d10 0.850133695702020",
  "bbob-biobj_f49_i02_d20 0.840080814232969",
  "bbob-biobj_f49_i02_d40 0.774650848356241",
  "bbob-biobj_f49_i03_d02 0.848123581192731",
  "bbob-biobj_f49_i03_d03 0.942236304247361",
  "bbob-biobj_f49_i03_d05 0.964450544000933",
  "bbob-biobj_f49_i03_d10 0.928249510306635",
  "bbob-biobj_f49_i03_d20 0.870765936863144",
  "bbob-biobj_f49_i03_d40 0.774359285613625",
  "bbob-biobj_f49_i04_d02 0.934365886903383",
  "bbob-biobj_f49_i04_d03 0.927010836573489",
  "bbob-biobj_f49_i04_d05 0.968264078437842",
  "bbob-biobj_f49_i04_d10 0.879063574520805",
  "bbob-biobj_f49_i04_d20 0.874796797376654",
  "bbob-biobj_f49_i04_d40 0.904891343924901",
  "bbob-biobj_f49_i05_d02 0.928529428713596",
  "bbob-biobj_f49_i05_d03 0.899348277744186",
  "bbob-biobj_f49_i05_d05 0.951111018439651",
  "bbob-biobj_f49_i05_d10 0.876306137236896",
  "bbob-biobj_f49_i05_d20 0.841627007998341",
  "bbob-biobj_f49_i05_d40 0.866802118424087",
  "bbob-biobj_f49_i06_d02 0.786973926020565",
  "bbob-biobj_f49_i06_d03 0.938858420224315",
  "bbob-biobj_f49_i06_d05 0.892745715408364",
  "bbob-biobj_f49_i06_d10 0.960146156492849",
  "bbob-biobj_f49_i06_d20 0.921534008454093",
  "bbob-biobj_f49_i06_d40 0.794969577213544",
  "bbob-biobj_f49_i07_d02 0.725230278357155",
  "bbob-biobj_f49_i07_d03 0.976798654205709",
  "bbob-biobj_f49_i07_d05 0.959532844172694",
  "bbob-biobj_f49_i07_d10 0.949618692671281",
  "bbob-biobj_f49_i07_d20 0.859873584525347",
  "bbob-biobj_f49_i07_d40 0.764664632091040",
  "bbob-biobj_f49_i08_d02 0.959123907095592",
  "bbob-biobj_f49_i08_d03 0.979610246558130",
  "bbob-biobj_f49_i08_d05 0.887922490868379",
  "bbob-biobj_f49_i08_d10 0.951943512943179",
  "bbob-biobj_f49_i08_d20 0.924566368254306",
  "bbob-biobj_f49_i08_d40 0.765412859882910",
  "bbob-biobj_f49_i09_d02 0.970413096029000",
  "bbob-biobj_f49_i09_d03 0.934579800752181",
  "bbob-biobj_f49_i09_d05 0.984332151398107",
  "bbob-biobj_f49_i09_d10 0.919846544331273",
  "bbob-biobj_f49_i09_d20 0.817439482831461",
  "bbob-biobj_f49_i09_d40 0.781086100934854",
  "bbob-biobj_f49_i10_d02 0.914459126016654",
  "bbob-biobj_f49_i10_d03 0.956448691116473",
  "bbob-biobj_f49_i10_d05 0.983357299901989",
  "bbob-biobj_f49_i10_d10 0.971101207563038",
  "bbob-biobj_f49_i10_d20 0.908009824573513",
  "bbob-biobj_f49_i10_d40 0.853708880678775",
  "bbob-biobj_f49_i11_d02 1.0",
  "bbob-biobj_f49_i11_d03 1.0",
  "bbob-biobj_f49_i11_d05 1.0",
  "bbob-biobj_f49_i11_d10 1.0",
  "bbob-biobj_f49_i11_d20 1.0",
  "bbob-biobj_f49_i11_d40 1.0",
  "bbob-biobj_f49_i12_d02 1.0",
  "bbob-biobj_f49_i12_d03 1.0",
  "bbob-biobj_f49_i12_d05 1.0",
  "bbob-biobj_f49_i12_d10 1.0",
  "bbob-biobj_f49_i12_d20 1.0",
  "bbob-biobj_f49_i12_d40 1.0",
  "bbob-biobj_f49_i13_d02 1.0",
  "bbob-biobj_f49_i13_d03 1.0",
  "bbob-biobj_f49_i13_d05 1.0",
  "bbob-biobj_f49_i13_d10 1.0",
  "bbob-biobj_f49_i13_d20 1.0",
  "bbob-biobj_f49_i13_d40 1.0",
  "bbob-biobj_f49_i14_d02 1.0",
  "bbob-biobj_f49_i14_d03 1.0",
  "bbob-biobj_f49_i14_d05 1.0",
  "bbob-biobj_f49_i14_d10 1.0",
  "bbob-biobj_f49_i14_d20 1.0",
  "bbob-biobj_f49_i14_d40 1.0",
  "bbob-biobj_f49_i15_d02 1.0",
  "bbob-biobj_f49_i15_d03 1.0",
  "bbob-biobj_f49_i15_d05 1.0",
  "bbob-biobj_f49_i15_d10 1.0",
  "bbob-biobj_f49_i15_d20 1.0",
  "bbob-biobj_f49_i15_d40 1.0",
  "bbob-biobj_f50_i01_d02 0.908153019029111",
  "bbob-biobj_f50_i01_d03 0.969143802394247",
  "bbob-biobj_f50_i01_d05 0.971221008283031",
  "bbob-biobj_f50_i01_d10 0.937806045408397",
  "bbob-biobj_f50_i01_d20 0.970534096699938",
  "bbob-biobj_f50_i01_d40 0.963208776860388",
  "bbob-biobj_f50_i02_d02 0.951055982970115",
  "bbob-biobj_f50_i02_d03 0.967318967089656",
  "bbob-biobj_f50_i02_d05 0.954449745524030",
  "bbob-biobj_f50_i02_d10 0.962522683964437",
  "bbob-biobj_f50_i02_d20 0.972725400959617",
  "bbob-biobj_f50_i02_d40 0.961091047677661",
  "bbob-biobj_f50_i03_d02 0.921885288089289",
  "bbob-biobj_f50_i03_d03 0.913001104267832",
  "bbob-biobj_f50_i03_d05 0.961402283754169",
  "bbob-biobj_f50_i03_d10 0.935786175448639",
  "bbob-biobj_f50_i03_d20 0.961360669884832",
  "bbob-biobj_f50_i03_d40 0.930380508112140",
  "bbob-biobj_f50_i04_d02 0.908169184637656",
  "bbob-biobj_f50_i04_d03 0.826472492158909",
  "bbob-biobj_f50_i04_d05 0.972864780921446",
  "bbob-biobj_f50_i04_d10 0.980278685964988",
  "bbob-biobj_f50_i04_d20 0.988771672486027",
  "bbob-biobj_f50_i04_d40 0.948589732443901",
  "bbob-biobj_f50_i05_d02 0.808869771430175",
  "bbob-biobj_f50_i05_d03 0.990888217555794",
  "bbob-biobj_f50_i05_d05 0.994314364726843",
  "bbob-biobj_f50_i05_d10 0.975063208666217",
  "bbob-biobj_f50_i05_d20 0.984258303473839",
  "bbob-biobj_f50_i05_d40 0.974082920338684",
  "bbob-biobj_f50_i06_d02 0.917893652037625",
  "bbob-biobj_f50_i06_d03 0.982435397284171",
  "bbob-biobj_f50_i06_d05 0.960919636000301",
  "bbob-biobj_f50_i06_d10 0.932682528025179",
  "bbob-biobj_f50_i06_d20 0.987220010500114",
  "bbob-biobj_f50_i06_d40 0.949611215723517",
  "bbob-biobj_f50_i07_d02 0.900109012077019",
  "bbob-biobj_f50_i07_d03 0.920306601245777",
  "bbob-biobj_f50_i07_d05 0.964454455379369",
  "bbob-biobj_f50_i07_d10 0.920054372340101",
  "bbob-biobj_f50_i07_d20 0.969312542880872",
  "bbob-biobj_f50_i07_d40 0.909610744875217",
  "bbob-biobj_f50_i08_d02 0.947066859501796",
  "bbob-biobj_f50_i08_d03 0.907539940520492",
  "bbob-biobj_f50_i08_d05 0.934424379801040",
  "bbob-biobj_f50_i08_d10 0.955482538306266",
  "bbob-biobj_f50_i08_d20 0.967561661901138",
  "bbob-biobj_f50_i08_d40 0.920378712617924",
  "bbob-biobj_f50_i09_d02 0.864750386477023",
  "bbob-biobj_f50_i09_d03 0.838936880954842",
  "bbob-biobj_f50_i09_d05 0.974769010237717",
  "bbob-biobj_f50_i09_d10 0.959771707855121",
  "bbob-biobj_f50_i09_d20 0.978814760423101",
  "bbob-biobj_f50_i09_d40 0.919391253272068",
  "bbob-biobj_f50_i10_d02 0.901004616658922",
  "bbob-biobj_f50_i10_d03 0.792672193879899",
  "bbob-biobj_f50_i10_d05 0.861738251567046",
  "bbob-biobj_f50_i10_d10 0.967553940320211",
  "bbob-biobj_f50_i10_d20 0.979927098989679",
  "bbob-biobj_f50_i10_d40 0.921438436191370",
  "bbob-biobj_f50_i11_d02 1.0",
  "bbob-biobj_f50_i11_d03 1.0",
  "bbob-biobj_f50_i11_d05 1.0",
  "bbob-biobj_f50_i11_d10 1.0",
  "bbob-biobj_f50_i11_d20 1.0",
  "bbob-biobj_f50_i11_d40 1.0",
  "bbob-biobj_f50_i12_d02 1.0",
  "bbob-biobj_f50_i12_d03 1.0",
  "bbob-biobj_f50_i12_d05 1.0",
  "bbob-biobj_f50_i12_d10 1.0",
  "bbob-biobj_f50_i12_d20 1.0",
  "bbob-biobj_f50_i12_d40 1.0",
  "bbob-biobj_f50_i13_d02 1.0",
  "bbob-biobj_f50_i13_d03 1.0",
  "bbob-biobj_f50_i13_d05 1.0",
  "bbob-biobj_f50_i13_d10 1.0",
  "bbob-biobj_f50_i13_d20 1.0",
  "bbob-biobj_f50_i13_d40 1.0",
  "bbob-biobj_f50_i14_d02 1.0",
  "bbob-biobj_f50_i14_d03 1.0",
  "bbob-biobj_f50_i14_d05 1.0",
  "bbob-biobj_f50_i14_d10 1.0",
  "bbob-biobj_f50_i14_d20 1.0",
  "bbob-biobj_f50_i14_d40 1.0",
  "bbob-biobj_f50_i15_d02 1.0",
  "bbob-biobj_f50_i15_d03 1.0",
  "bbob-biobj_f50_i15_d05 1.0",
  "bbob-biobj_f50_i15_d10 1.0",
  "bbob-biobj_f50_i15_d20 1.0",
  "bbob-biobj_f50_i15_d40 1.0",
  "bbob-biobj_f51_i01_d02 0.940860622956402",
  "bbob-biobj_f51_i01_d03 0.868132937449447",
  "bbob-biobj_f51_i01_d05 0.986104585596155",
  "bbob-biobj_f51_i01_d10 0.980590654398549",
  "bbob-biobj_f51_i01_d20 0.988870039487499",
  "bbob-biobj_f51_i01_d40 0.962072401299433",
  "bbob-biobj_f51_i02_d02 0.909955920096103",
  "bbob-biobj_f51_i02_d03 0.990190457639888",
  "bbob-biobj_f51_i02_d05 0.980597486676055",
  "bbob-biobj_f51_i02_d10 0.991120502560612",
  "bbob-biobj_f51_i02_d20 0.993638471205306",
  "bbob-biobj_f51_i02_d40 0.971053668423443",
  "bbob-biobj_f51_i03_d02 0.941593321951149",
  "bbob-biobj_f51_i03_d03 0.933223460442475",
  "bbob-biobj_f51_i03_d05 0.972313234080961",
  "bbob-biobj_f51_i03_d10 0.968916597600458",
  "bbob-biobj_f51_i03_d20 0.984620917109957",
  "bbob-biobj_f51_i03_d40 0.976831958247220",
  "bbob-biobj_f51_i04_d02 0.986038980461909",
  "bbob-biobj_f51_i04_d03 0.947539307416669",
  "bbob-biobj_f51_i04_d05 0.983531663993893",
  "bbob-biobj_f51_i04_d10 0.997696597033701",
  "bbob-biobj_f51_i04_d20 0.989275960210909",
  "bbob-biobj_f51_i04_d40 0.987757024704872",
  "bbob-biobj_f51_i05_d02 0.971128897412135",
  "bbob-biobj_f51_i05_d03 0.983405022796850",
  "bbob-biobj_f51_i05_d05 0.994450760664070",
  "bbob-biobj_f51_i05_d10 0.965345335670043",
  "bbob-biobj_f51_i05_d20 0.985153015165469",
  "bbob-biobj_f51_i05_d40 0.980794637268118",
  "bbob-biobj_f51_i06_d02 0.911416519677454",
  "bbob-biobj_f51_i06_d03 0.973249576387185",
  "bbob-biobj_f51_i06_d05 0.983513317510326",
  "bbob-biobj_f51_i06_d10 0.982481654524230",
  "bbob-biobj_f51_i06_d20 0.981270294614853",
  "bbob-biobj_f51_i06_d40 0.976389464264435",
  "bbob-biobj_f51_i07_d02 0.993373695494302",
  "bbob-biobj_f51_i07_d03 0.993098771393319",
  "bbob-biobj_f51_i07_d05 0.986024836022638",
  "bbob-biobj_f51_i07_d10 0.990500668757965",
  "bbob-biobj_f51_i07_d20 0.981966525510357",
  "bbob-biobj_f51_i07_d40 0.966246144584898",
  "bbob-biobj_f51_i08_d02 0.985466839182422",
  "bbob-biobj_f51_i08_d03 0.761177260258873",
  "bbob-biobj_f51_i08_d05 0.964401210532718",
  "bbob-biobj_f51_i08_d10 0.995237997246082",
  "bbob-biobj_f51_i08_d20 0.985624637157006",
  "bbob-biobj_f51_i08_d40 0.962822382253301",
  "bbob-biobj_f51_i09_d02 0.942349371111133",
  "bbob-biobj_f51_i09_d03 0.994401740148738",
  "bbob-biobj_f51_i09_d05 0.981355916126111",
  "bbob-biobj_f51_i09_d10 0.982895323802829",
  "bbob-biobj_f51_i09_d20 0.992431408415566",
  "bbob-biobj_f51_i09_d40 0.904488520450946",
  "bbob-biobj_f51_i10_d02 0.969188689957788",
  "bbob-biobj_f51_i10_d03 0.982914020236925",
  "bbob-biobj_f51_i10_d05 0.961917917181196",
  "bbob-biobj_f51_i10_d10 0.976536065224792",
  "bbob-biobj_f51_i10_d20 0.982313386455097",
  "bbob-biobj_f51_i10_d40 0.972730879274001",
  "bbob-biobj_f51_i11_d02 1.0",
  "bbob-biobj_f51_i11_d03 1.0",
  "bbob-biobj_f51_i11_d05 1.0",
  "bbob-biobj_f51_i11_d10 1.0",
  "bbob-biobj_f51_i11_d20 1.0",
  "bbob-biobj_f51_i11_d40 1.0",
  "bbob-biobj_f51_i12_d02 1.0",
  "bbob-biobj_f51_i12_d03 1.0",
  "bbob-biobj_f51_i12_d05 1.0",
  "bbob-biobj_f51_i12_d10 1.0",
  "bbob-biobj_f51_i12_d20 1.0",
  "bbob-biobj_f51_i12_d40 1.0",
  "bbob-biobj_f51_i13_d02 1.0",
  "bbob-biobj_f51_i13_d03 1.0",
  "bbob-biobj_f51_i13_d05 1.0",
  "bbob-biobj_f51_i13_d10 1.0",
  "bbob-biobj_f51_i13_d20 1.0",
  "bbob-biobj_f51_i13_d40 1.0",
  "bbob-biobj_f51_i14_d02 1.0",
  "bbob-biobj_f51_i14_d03 1.0",
  "bbob-biobj_f51_i14_d05 1.0",
  "bbob-biobj_f51_i14_d10 1.0",
  "bbob-biobj_f51_i14_d20 1.0",
  "bbob-biobj_f51_i14_d40 1.0",
  "bbob-biobj_f51_i15_d02 1.0",
  "bbob-biobj_f51_i15_d03 1.0",
  "bbob-biobj_f51_i15_d05 1.0",
  "bbob-biobj_f51_i15_d10 1.0",
  "bbob-biobj_f51_i15_d20 1.0",
  "bbob-biobj_f51_i15_d40 1.0",
  "bbob-biobj_f52_i01_d02 0.947011565973429",
  "bbob-biobj_f52_i01_d03 0.887655083094057",
  "bbob-biobj_f52_i01_d05 0.961544365098409",
  "bbob-biobj_f52_i01_d10 0.880609852012585",
  "bbob-biobj_f52_i01_d20 0.951850617726202",
  "bbob-biobj_f52_i01_d40 0.959665804760387",
  "bbob-biobj_f52_i02_d02 0.786879929743507",
  "bbob-biobj_f52_i02_d03 0.975827723704229",
  "bbob-biobj_f52_i02_d05 0.979002884357261",
  "bbob-biobj_f52_i02_d10 0.908877396177977",
  "bbob-biobj_f52_i02_d20 0.952795318395061",
  "bbob-biobj_f52_i02_d40 0.763031400172234",
  "bbob-biobj_f52_i03_d02 0.931104872267525",
  "bbob-biobj_f52_i03_d03 0.944892661248204",
  "bbob-biobj_f52_i03_d05 0.981095090201299",
  "bbob-biobj_f52_i03_d10 0.928681714337413",
  "bbob-biobj_f52_i03_d20 0.898681720929998",
  "bbob-biobj_f52_i03_d40 0.930998941682665",
  "bbob-biobj_f52_i04_d02 0.719116774075094",
  "bbob-biobj_f52_i04_d03 0.963898316853337",
  "bbob-biobj_f52_i04_d05 0.990702143798999",
  "bbob-biobj_f52_i04_d10 0.991866341435212",
  "bbob-biobj_f52_i04_d20 0.922398943813953",
  "bbob-biobj_f52_i04_d40 0.850048158211609",
  "bbob-biobj_f52_i05_d02 0.781598890865292",
  "bbob-biobj_f52_i05_d03 0.970416804183748",
  "bbob-biobj_f52_i05_d05 0.986024903943445",
  "bbob-biobj_f52_i05_d10 0.882103650889895",
  "bbob-biobj_f52_i05_d20 0.937532910793425",
  "bbob-biobj_f52_i05_d40 0.915203342619471",
  "bbob-biobj_f52_i06_d02 0.642310315034435",
  "bbob-biobj_f52_i06_d03 0.891675389086588",
  "bbob-biobj_f52_i06_d05 0.973023404031696",
  "bbob-biobj_f52_i06_d10 0.800202443940251",
  "bbob-biobj_f52_i06_d20 0.868836337974470",
  "bbob-biobj_f52_i06_d40 0.869567853696131",
  "bbob-biobj_f52_i07_d02 0.921082784944154",
  "bbob-biobj_f52_i07_d03 0.981614450878430",
  "bbob-biobj_f52_i07_d05 0.944431471766394",
  "bbob-biobj_f52_i07_d10 0.956950187414469",
  "bbob-biobj_f52_i07_d20 0.943960851479189",
  "bbob-biobj_f52_i07_d40 0.872863936698003",
  "bbob-biobj_f52_i08_d02 0.993175903549896",
  "bbob-biobj_f52_i08_d03 0.936550893756555",
  "bbob-biobj_f52_i08_d05 0.974796495933045",
  "bbob-biobj_f52_i08_d10 0.913646661161340",
  "bbob-biobj_f52_i08_d20 0.900335395151447",
  "bbob-biobj_f52_i08_d40 0.926013943945283",
  "bbob-biobj_f52_i09_d02 0.975729533922839",
  "bbob-biobj_f52_i09_d03 0.946974860900458",
  "bbob-biobj_f52_i09_d05 0.973454345970633",
  "bbob-biobj_f52_i09_d10 0.937299524235731",
  "bbob-biobj_f52_i09_d20 0.987128376438317",
  "bbob-biobj_f52_i09_d40 0.849349703458808",
  "bbob-biobj_f52_i10_d02 0.873618189290749",
  "bbob-biobj_f52_i10_d03 0.976858150689502",
  "bbob-biobj_f52_i10_d05 0.968338375271559",
  "bbob-biobj_f52_i10_d10 0.948528475089375",
  "bbob-biobj_f52_i10_d20 0.926756784862981",
  "bbob-biobj_f52_i10_d40 0.857193764938067",
  "bbob-biobj_f52_i11_d02 1.0",
  "bbob-biobj_f52_i11_d03 1.0",
  "bbob-biobj_f52_i11_d05 1.0",
  "bbob-biobj_f52_i11_d10 1.0",
  "bbob-biobj_f52_i11_d20 1.0",
  "bbob-biobj_f52_i11_d40 1.0",
  "bbob-biobj_f52_i12_d02 1.0",
  "bbob-biobj_f52_i12_d03 1.0",
  "bbob-biobj_f52_i12_d05 1.0",
  "bbob-biobj_f52_i12_d10 1.0",
  "bbob-biobj_f52_i12_d20 1.0",
  "bbob-biobj_f52_i12_d40 1.0",
  "bbob-biobj_f52_i13_d02 1.0",
  "bbob-biobj_f52_i13_d03 1.0",
  "bbob-biobj_f52_i13_d05 1.0",
  "bbob-biobj_f52_i13_d10 1.0",
  "bbob-biobj_f52_i13_d20 1.0",
  "bbob-biobj_f52_i13_d40 1.0",
  "bbob-biobj_f52_i14_d02 1.0",
  "bbob-biobj_f52_i14_d03 1.0",
  "bbob-biobj_f52_i14_d05 1.0",
  "bbob-biobj_f52_i14_d10 1.0",
  "bbob-biobj_f52_i14_d20 1.0",
  "bbob-biobj_f52_i14_d40 1.0",
  "bbob-biobj_f52_i15_d02 1.0",
  "bbob-biobj_f52_i15_d03 1.0",
  "bbob-biobj_f52_i15_d05 1.0",
  "bbob-biobj_f52_i15_d10 1.0",
  "bbob-biobj_f52_i15_d20 1.0",
  "bbob-biobj_f52_i15_d40 1.0",
  "bbob-biobj_f53_i01_d02 0.997875692921781",
  "bbob-biobj_f53_i01_d03 0.999784714181698",
  "bbob-biobj_f53_i01_d05 0.999101073133201",
  "bbob-biobj_f53_i01_d10 0.997770935634617",
  "bbob-biobj_f53_i01_d20 0.993620588032558",
  "bbob-biobj_f53_i01_d40 0.997008253936025",
  "bbob-biobj_f53_i02_d02 0.975730767360763",
  "bbob-biobj_f53_i02_d03 0.981829133734374",
  "bbob-biobj_f53_i02_d05 0.998940051716482",
  "bbob-biobj_f53_i02_d10 0.995012930374049",
  "bbob-biobj_f53_i02_d20 0.987972894242487",
  "bbob-biobj_f53_i02_d40 0.997893943682911",
  "bbob-biobj_f53_i03_d02 0.975730768524520",
  "bbob-biobj_f53_i03_d03 0.981829137688355",
  "bbob-biobj_f53_i03_d05 0.997632245909664",
  "bbob-biobj_f53_i03_d10 0.999758330110187",
  "bbob-biobj_f53_i03_d20 0.998226457785466",
  "bbob-biobj_f53_i03_d40 0.999617870488956",
  "bbob-biobj_f53_i04_d02 0.997875695023842",
  "bbob-biobj_f53_i04_d03 0.999784714340619",
  "bbob-biobj_f53_i04_d05 0.999956640160364",
  "bbob-biobj_f53_i04_d10 0.998086949083842",
  "bbob-biobj_f53_i04_d20 0.998921075119552",
  "bbob-biobj_f53_i04_d40 0.998673414327444",
  "bbob-biobj_f53_i05_d02 0.706101956086970",
  "bbob-biobj_f53_i05_d03 0.998471514383848",
  "bbob-biobj_f53_i05_d05 0.998401788287043",
  "bbob-biobj_f53_i05_d10 0.999964506688086",
  "bbob-biobj_f53_i05_d20 0.995342078634822",
  "bbob-biobj_f53_i05_d40 0.992053521228669",
  "bbob-biobj_f53_i06_d02 0.975730736637401",
  "bbob-biobj_f53_i06_d03 0.981829088690173",
  "bbob-biobj_f53_i06_d05 0.999948601090440",
  "bbob-biobj_f53_i06_d10 0.999359368456460",
  "bbob-biobj_f53_i06_d20 0.991810210157473",
  "bbob-biobj_f53_i06_d40 0.994170782028727",
  "bbob-biobj_f53_i07_d02 0.975730732746261",
  "bbob-biobj_f53_i07_d03 0.981829051670767",
  "bbob-biobj_f53_i07_d05 0.997626866918283",
  "bbob-biobj_f53_i07_d10 0.991073860517323",
  "bbob-biobj_f53_i07_d20 0.994946657102409",
  "bbob-biobj_f53_i07_d40 0.997128393161806",
  "bbob-biobj_f53_i08_d02 0.975730731124355",
  "bbob-biobj_f53_i08_d03 0.981829129285381",
  "bbob-biobj_f53_i08_d05 0.986891604919335",
  "bbob-biobj_f53_i08_d10 0.992859639681137",
  "bbob-biobj_f53_i08_d20 0.991326253228450",
  "bbob-biobj_f53_i08_d40 0.993144813419714",
  "bbob-biobj_f53_i09_d02 0.997875685000665",
  "bbob-biobj_f53_i09_d03 0.999784714335332",
  "bbob-biobj_f53_i09_d05 0.999955671721642",
  "bbob-biobj_f53_i09_d10 0.999954725874065",
  "bbob-biobj_f53_i09_d20 0.997813381121439",
  "bbob-biobj_f53_i09_d40 0.989629515726637",
  "bbob-biobj_f53_i10_d02 0.706101787141003",
  "bbob-biobj_f53_i10_d03 0.998471495513510",
  "bbob-biobj_f53_i10_d05 0.996114532965430",
  "bbob-biobj_f53_i10_d10 0.999940309390393",
  "bbob-biobj_f53_i10_d20 0.998288727005705",
  "bbob-biobj_f53_i10_d40 0.996969229118885",
  "bbob-biobj_f53_i11_d02 1.0",
  "bbob-biobj_f53_i11_d03 1.0",
  "bbob-biobj_f53_i11_d05 1.0",
  "bbob-biobj_f53_i11_d10 1.0",
  "bbob-biobj_f53_i11_d20 1.0",
  "bbob-biobj_f53_i11_d40 1.0",
  "bbob-biobj_f53_i12_d02 1.0",
  "bbob-biobj_f53_i12_d03 1.0",
  "bbob-biobj_f53_i12_d05 1.0",
  "bbob-biobj_f53_i12_d10 1.0",
  "bbob-biobj_f53_i12_d20 1.0",
  "bbob-biobj_f53_i12_d40 1.0",
  "bbob-biobj_f53_i13_d02 1.0",
  "bbob-biobj_f53_i13_d03 1.0",
  "bbob-biobj_f53_i13_d05 1.0",
  "bbob-biobj_f53_i13_d10 1.0",
  "bbob-biobj_f53_i13_d20 1.0",
  "bbob-biobj_f53_i13_d40 1.0",
  "bbob-biobj_f53_i14_d02 1.0",
  "bbob-biobj_f53_i14_d03 1.0",
  "bbob-biobj_f53_i14_d05 1.0",
  "bbob-biobj_f53_i14_d10 1.0",
  "bbob-biobj_f53_i14_d20 1.0",
  "bbob-biobj_f53_i14_d40 1.0",
  "bbob-biobj_f53_i15_d02 1.0",
  "bbob-biobj_f53_i15_d03 1.0",
  "bbob-biobj_f53_i15_d05 1.0",
  "bbob-biobj_f53_i15_d10 1.0",
  "bbob-biobj_f53_i15_d20 1.0",
  "bbob-biobj_f53_i15_d40 1.0",
  "bbob-biobj_f54_i01_d02 0.943563947345365",
  "bbob-biobj_f54_i01_d03 0.975179483828660",
  "bbob-biobj_f54_i01_d05 0.986735978557260",
  "bbob-biobj_f54_i01_d10 0.971020975989233",
  "bbob-biobj_f54_i01_d20 0.975754562298456",
  "bbob-biobj_f54_i01_d40 0.940619701836704",
  "bbob-biobj_f54_i02_d02 0.929274474829962",
  "bbob-biobj_f54_i02_d03 0.971505490328074",
  "bbob-biobj_f54_i02_d05 0.988596502264416",
  "bbob-biobj_f54_i02_d10 0.979018161955299",
  "bbob-biobj_f54_i02_d20 0.978503935730430",
  "bbob-biobj_f54_i02_d40 0.944836572146846",
  "bbob-biobj_f54_i03_d02 0.991716135247573",
  "bbob-biobj_f54_i03_d03 0.991021577879334",
  "bbob-biobj_f54_i03_d05 0.990017103886950",
  "bbob-biobj_f54_i03_d10 0.971485743914789",
  "bbob-biobj_f54_i03_d20 0.985298830810207",
  "bbob-biobj_f54_i03_d40 0.956655441082847",
  "bbob-biobj_f54_i04_d02 0.984075359489210",
  "bbob-biobj_f54_i04_d03 0.985246735720961",
  "bbob-biobj_f54_i04_d05 0.992621802368755",
  "bbob-biobj_f54_i04_d10 0.987233984371954",
  "bbob-biobj_f54_i04_d20 0.980209807661969",
  "bbob-biobj_f54_i04_d40 0.913196115921382",
  "bbob-biobj_f54_i05_d02 0.977343826732106",
  "bbob-biobj_f54_i05_d03 0.956277057377107",
  "bbob-biobj_f54_i05_d05 0.991382525490389",
  "bbob-biobj_f54_i05_d10 0.963574327834559",
  "bbob-biobj_f54_i05_d20 0.984351904270309",
  "bbob-biobj_f54_i05_d40 0.912702276221518",
  "bbob-biobj_f54_i06_d02 0.737530413924196",
  "bbob-biobj_f54_i06_d03 0.999165572581585",
  "bbob-biobj_f54_i06_d05 0.989460331214994",
  "bbob-biobj_f54_i06_d10 0.978486755665419",
  "bbob-biobj_f54_i06_d20 0.975547602300677",
  "bbob-biobj_f54_i06_d40 0.972391142773130",
  "bbob-biobj_f54_i07_d02 0.905800915025149",
  "bbob-biobj_f54_i07_d03 0.998327608576897",
  "bbob-biobj_f54_i07_d05 0.978766814862955",
  "bbob-biobj_f54_i07_d10 0.967201101453933",
  "bbob-biobj_f54_i07_d20 0.965349683834782",
  "bbob-biobj_f54_i07_d40 0.952199451989289",
  "bbob-biobj_f54_i08_d02 0.989659979524769",
  "bbob-biobj_f54_i08_d03 0.980826071667587",
  "bbob-biobj_f54_i08_d05 0.978332540639450",
  "bbob-biobj_f54_i08_d10 0.986066276830726",
  "bbob-biobj_f54_i08_d20 0.988117414569477",
  "bbob-biobj_f54_i08_d40 0.965650240352066",
  "bbob-biobj_f54_i09_d02 0.948189832749533",
  "bbob-biobj_f54_i09_d03 0.982166030217899",
  "bbob-biobj_f54_i09_d05 0.994880188200191",
  "bbob-biobj_f54_i09_d10 0.983274688085683",
  "bbob-biobj_f54_i09_d20 0.977318477762187",
  "bbob-biobj_f54_i09_d40 0.961157141306381",
  "bbob-biobj_f54_i10_d02 0.974466009143839",
  "bbob-biobj_f54_i10_d03 0.993510177330670",
  "bbob-biobj_f54_i10_d05 0.979811064365768",
  "bbob-biobj_f54_i10_d10 0.980122926489943",
  "bbob-biobj_f54_i10_d20 0.973981891477217",
  "bbob-biobj_f54_i10_d40 0.808176202164876",
  "bbob-biobj_f54_i11_d02 1.0",
  "bbob-biobj_f54_i11_d03 1.0",
  "bbob-biobj_f54_i11_d05 1.0",
  "bbob-biobj_f54_i11_d10 1.0",
  "bbob-biobj_f54_i11_d20 1.0",
  "bbob-biobj_f54_i11_d40 1.0",
  "bbob-biobj_f54_i12_d02 1.0",
  "bbob-biobj_f54_i12_d03 1.0",
  "bbob-biobj_f54_i12_d05 1.0",
  "bbob-biobj_f54_i12_d10 1.0",
  "bbob-biobj_f54_i12_d20 1.0",
  "bbob-biobj_f54_i12_d40 1.0",
  "bbob-biobj_f54_i13_d02 1.0",
  "bbob-biobj_f54_i13_d03 1.0",
  "bbob-biobj_f54_i13_d05 1.0",
  "bbob-biobj_f54_i13_d10 1.0",
  "bbob-biobj_f54_i13_d20 1.0",
  "bbob-biobj_f54_i13_d40 1.0",
  "bbob-biobj_f54_i14_d02 1.0",
  "bbob-biobj_f54_i14_d03 1.0",
  "bbob-biobj_f54_i14_d05 1.0",
  "bbob-biobj_f54_i14_d10 1.0",
  "bbob-biobj_f54_i14_d20 1.0",
  "bbob-biobj_f54_i14_d40 1.0",
  "bbob-biobj_f54_i15_d02 1.0",
  "bbob-biobj_f54_i15_d03 1.0",
  "bbob-biobj_f54_i15_d05 1.0",
  "bbob-biobj_f54_i15_d10 1.0",
  "bbob-biobj_f54_i15_d20 1.0",
  "bbob-biobj_f54_i15_d40 1.0",
  "bbob-biobj_f55_i01_d02 0.994912013563836",
  "bbob-biobj_f55_i01_d03 0.969816640299804",
  "bbob-biobj_f55_i01_d05 0.966515517568895",
  "bbob-biobj_f55_i01_d10 0.911775730837247",
  "bbob-biobj_f55_i01_d20 0.625511450683819",
  "bbob-biobj_f55_i01_d40 0.718241618381943",
  "bbob-biobj_f55_i02_d02 0.936711803357930",
  "bbob-biobj_f55_i02_d03 0.932687634023037",
  "bbob-biobj_f55_i02_d05 0.982279478571098",
  "bbob-biobj_f55_i02_d10 0.933516109255220",
  "bbob-biobj_f55_i02_d20 0.739370942673084",
  "bbob-biobj_f55_i02_d40 0.523868454410108",
  "bbob-biobj_f55_i03_d02 0.979743710493495",
  "bbob-biobj_f55_i03_d03 0.960031091125810",
  "bbob-biobj_f55_i03_d05 0.964544646626252",
  "bbob-biobj_f55_i03_d10 0.953346430698596",
  "bbob-biobj_f55_i03_d20 0.669096157082512",
  "bbob-biobj_f55_i03_d40 0.275426248650253",
  "bbob-biobj_f55_i04_d02 0.931560158530144",
  "bbob-biobj_f55_i04_d03 0.978791413401360",
  "bbob-biobj_f55_i04_d05 0.987527825777800",
  "bbob-biobj_f55_i04_d10 0.853420086888775",
  "bbob-biobj_f55_i04_d20 0.673468643988903",
  "bbob-biobj_f55_i04_d40 0.395054772003883",
  "bbob-biobj_f55_i05_d02 0.890941864072125",
  "bbob-biobj_f55_i05_d03 0.890297839156039",
  "bbob-biobj_f55_i05_d05 0.972349521936232",
  "bbob-biobj_f55_i05_d10 0.932483593169201",
  "bbob-biobj_f55_i05_d20 0.831137046489323",
  "bbob-biobj_f55_i05_d40 0.613317764576754",
  "bbob-biobj_f55_i06_d02 0.878456416911427",
  "bbob-biobj_f55_i06_d03 0.907837070000508",
  "bbob-biobj_f55_i06_d05 0.960630894628764",
  "bbob-biobj_f55_i06_d10 0.872164591569205",
  "bbob-biobj_f55_i06_d20 0.788122550862569",
  "bbob-biobj_f55_i06_d40 0.319534927517951",
  "bbob-biobj_f55_i07_d02 0.938782814424875",
  "bbob-biobj_f55_i07_d03 0.971714983311250",
  "bbob-biobj_f55_i07_d05 0.986550279789914",
  "bbob-biobj_f55_i07_d10 0.938174903148621",
  "bbob-biobj_f55_i07_d20 0.737311436988115",
  "bbob-biobj_f55_i07_d40 0.491484808717019",
  "bbob-biobj_f55_i08_d02 0.901150986249256",
  "bbob-biobj_f55_i08_d03 0.986755213840288",
  "bbob-biobj_f55_i08_d05 0.986851570930107",
  "bbob-biobj_f55_i08_d10 0.863147731496326",
  "bbob-biobj_f55_i08_d20 0.696497298536161",
  "bbob-biobj_f55_i08_d40 0.396202187649523",
  "bbob-biobj_f55_i09_d02 0.869253762734078",
  "bbob-biobj_f55_i09_d03 0.938483554432844",
  "bbob-biobj_f55_i09_d05 0.960424634210952",
  "bbob-biobj_f55_i09_d10 0.910655216684625",
  "bbob-biobj_f55_i09_d20 0.782795793522196",
  "bbob-biobj_f55_i09_d40 0.444870008526301",
  "bbob-biobj_f55_i10_d02 0.851309741230642",
  "bbob-biobj_f55_i10_d03 0.983937286062800",
  "bbob-biobj_f55_i10_d05 0.960687748293214",
  "bbob-biobj_f55_i10_d10 0.892965931330228",
  "bbob-biobj_f55_i10_d20 0.753936183639365",
  "bbob-biobj_f55_i10_d40 0.320849661893284",
  "bbob-biobj_f55_i11_d02 1.0",
  "bbob-biobj_f55_i11_d03 1.0",
  "bbob-biobj_f55_i11_d05 1.0",
  "bbob-biobj_f55_i11_d10 1.0",
  "bbob-biobj_f55_i11_d20 1.0",
  "bbob-biobj_f55_i11_d40 1.0",
  "bbob-biobj_f55_i12_d02 1.0",
  "bbob-biobj_f55_i12_d03 1.0",
  "bbob-biobj_f55_i12_d05 1.0",
  "bbob-biobj_f55_i12_d10 1.0",
  "bbob-biobj_f55_i12_d20 1.0",
  "bbob-biobj_f55_i12_d40 1.0",
  "bbob-biobj_f55_i13_d02 1.0",
  "bbob-biobj_f55_i13_d03 1.0",
  "bbob-biobj_f55_i13_d05 1.0",
  "bbob-biobj_f55_i13_d10 1.0",
  "bbob-biobj_f55_i13_d20 1.0",
  "bbob-biobj_f55_i13_d40 1.0",
  "bbob-biobj_f55_i14_d02 1.0",
  "bbob-biobj_f55_i14_d03 1.0",
  "bbob-biobj_f55_i14_d05 1.0",
  "bbob-biobj_f55_i14_d10 1.0",
  "bbob-biobj_f55_i14_d20 1.0",
  "bbob-biobj_f55_i14_d40 1.0",
  "bbob-biobj_f55_i15_d02 1.0",
  "bbob-biobj_f55_i15_d03 1.0",
  "bbob-biobj_f55_i15_d05 1.0",
  "bbob-biobj_f55_i15_d10 1.0",
  "bbob-biobj_f55_i15_d20 1.0",
  "bbob-biobj_f55_i15_d40 1.0",
  "bbob-biobj_f56_i01_d02 1.0",
  "bbob-biobj_f56_i01_d03 1.0",
  "bbob-biobj_f56_i01_d05 1.0",
  "bbob-biobj_f56_i01_d10 1.0",
  "bbob-biobj_f56_i01_d20 1.0",
  "bbob-biobj_f56_i01_d40 1.0",
  "bbob-biobj_f56_i02_d02 1.0",
  "bbob-biobj_f56_i02_d03 1.0",
  "bbob-biobj_f56_i02_d05 1.0",
  "bbob-biobj_f56_i02_d10 1.0",
  "bbob-biobj_f56_i02_d20 1.0",
  "bbob-biobj_f56_i02_d40 1.0",
  "bbob-biobj_f56_i03_d02 1.0",
  "bbob-biobj_f56_i03_d03 1.0",
  "bbob-biobj_f56_i03_d05 1.0",
  "bbob-biobj_f56_i03_d10 1.0",
  "bbob-biobj_f56_i03_d20 1.0",
  "bbob-biobj_f56_i03_d40 1.0",
  "bbob-biobj_f56_i04_d02 1.0",
  "bbob-biobj_f56_i04_d03 1.0",
  "bbob-biobj_f56_i04_d05 1.0",
  "bbob-biobj_f56_i04_d10 1.0",
  "bbob-biobj_f56_i04_d20 1.0",
  "bbob-biobj_f56_i04_d40 1.0",
  "bbob-biobj_f56_i05_d02 1.0",
  "bbob-biobj_f56_i05_d03 1.0",
  "bbob-biobj_f56_i05_d05 1.0",
  "bbob-biobj_f56_i05_d10 1.0",
  "bbob-biobj_f56_i05_d20 1.0",
  "bbob-biobj_f56_i05_d40 1.0",
  "bbob-biobj_f56_i06_d02 1.0",
  "bbob-biobj_f56_i06_d03 1.0",
  "bbob-biobj_f56_i06_d05 1.0",
  "bbob-biobj_f56_i06_d10 1.0",
  "bbob-biobj_f56_i06_d20 1.0",
  "bbob-biobj_f56_i06_d40 1.0",
  "bbob-biobj_f56_i07_d02 1.0",
  "bbob-biobj_f56_i07_d03 1.0",
  "bbob-biobj_f56_i07_d05 1.0",
  "bbob-biobj_f56_i07_d10 1.0",
  "bbob-biobj_f56_i07_d20 1.0",
  "bbob-biobj_f56_i07_d40 1.0",
  "bbob-biobj_f56_i08_d02 1.0",
  "bbob-biobj_f56_i08_d03 1.0",
  "bbob-biobj_f56_i08_d05 1.0",
  "bbob-biobj_f56_i08_d10 1.0",
  "bbob-biobj_f56_i08_d20 1.0",
  "bbob-biobj_f56_i08_d40 1.0",
  "bbob-biobj_f56_i09_d02 1.0",
  "bbob-biobj_f56_i09_d03 1.0",
  "bbob-biobj_f56_i09_d05 1.0",
  "bbob-biobj_f56_i09_d10 1.0",
  "bbob-biobj_f56_i09_d20 1.0",
  "bbob-biobj_f56_i09_d40 1.0",
  "bbob-biobj_f56_i10_d02 1.0",
  "bbob-biobj_f56_i10_d03 1.0",
  "bbob-biobj_f56_i10_d05 1.0",
  "bbob-biobj_f56_i10_d10 1.0",
  "bbob-biobj_f56_i10_d20 1.0",
  "bbob-biobj_f56_i10_d40 1.0",
  "bbob-biobj_f56_i11_d02 1.0",
  "bbob-biobj_f56_i11_d03 1.0",
  "bbob-biobj_f56_i11_d05 1.0",
  "bbob-biobj_f56_i11_d10 1.0",
  "bbob-biobj_f56_i11_d20 1.0",
  "bbob-biobj_f56_i11_d40 1.0",
  "bbob-biobj_f56_i12_d02 1.0",
  "bbob-biobj_f56_i12_d03 1.0",
  "bbob-biobj_f56_i12_d05 1.0",
  "bbob-biobj_f56_i12_d10 1.0",
  "bbob-biobj_f56_i12_d20 1.0",
  "bbob-biobj_f56_i12_d40 1.0",
  "bbob-biobj_f56_i13_d02 1.0",
  "bbob-biobj_f56_i13_d03 1.0",
  "bbob-biobj_f56_i13_d05 1.0",
  "bbob-biobj_f56_i13_d10 1.0",
  "bbob-biobj_f56_i13_d20 1.0",
  "bbob-biobj_f56_i13_d40 1.0",
  "bbob-biobj_f56_i14_d02 1.0",
  "bbob-biobj_f56_i14_d03 1.0",
  "bbob-biobj_f56_i14_d05 1.0",
  "bbob-biobj_f56_i14_d10 1.0",
  "bbob-biobj_f56_i14_d20 1.0",
  "bbob-biobj_f56_i14_d40 1.0",
  "bbob-biobj_f56_i15_d02 1.0",
  "bbob-biobj_f56_i15_d03 1.0",
  "bbob-biobj_f56_i15_d05 1.0",
  "bbob-biobj_f56_i15_d10 1.0",
  "bbob-biobj_f56_i15_d20 1.0",
  "bbob-biobj_f56_i15_d40 1.0",
  "bbob-biobj_f57_i01_d02 1.0",
  "bbob-biobj_f57_i01_d03 1.0",
  "bbob-biobj_f57_i01_d05 1.0",
  "bbob-biobj_f57_i01_d10 1.0",
  "bbob-biobj_f57_i01_d20 1.0",
  "bbob-biobj_f57_i01_d40 1.0",
  "bbob-biobj_f57_i02_d02 1.0",
  "bbob-biobj_f57_i02_d03 1.0",
  "bbob-biobj_f57_i02_d05 1.0",
  "bbob-biobj_f57_i02_d10 1.0",
  "bbob-biobj_f57_i02_d20 1.0",
  "bbob-biobj_f57_i02_d40 1.0",
  "bbob-biobj_f57_i03_d02 1.0",
  "bbob-biobj_f57_i03_d03 1.0",
  "bbob-biobj_f57_i03_d05 1.0",
  "bbob-biobj_f57_i03_d10 1.0",
  "bbob-biobj_f57_i03_d20 1.0",
  "bbob-biobj_f57_i03_d40 1.0",
  "bbob-biobj_f57_i04_d02 1.0",
  "bbob-biobj_f57_i04_d03 1.0",
  "bbob-biobj_f57_i04_d05 1.0",
  "bbob-biobj_f57_i04_d10 1.0",
  "bbob-biobj_f57_i04_d20 1.0",
  "bbob-biobj_f57_i04_d40 1.0",
  "bbob-biobj_f57_i05_d02 1.0",
  "bbob-biobj_f57_i05_d03 1.0",
  "bbob-biobj_f57_i05_d05 1.0",
  "bbob-biobj_f57_i05_d10 1.0",
  "bbob-biobj_f57_i05_d20 1.0",
  "bbob-biobj_f57_i05_d40 1.0",
  "bbob-biobj_f57_i06_d02 1.0",
  "bbob-biobj_f57_i06_d03 1.0",
  "bbob-biobj_f57_i06_d05 1.0",
  "bbob-biobj_f57_i06_d10 1.0",
  "bbob-biobj_f57_i06_d20 1.0",
  "bbob-biobj_f57_i06_d40 1.0",
  "bbob-biobj_f57_i07_d02 1.0",
  "bbob-biobj_f57_i07_d03 1.0",
  "bbob-biobj_f57_i07_d05 1.0",
  "bbob-biobj_f57_i07_d10 1.0",
  "bbob-biobj_f57_i07_d20 1.0",
  "bbob-biobj_f57_i07_d40 1.0",
  "bbob-biobj_f57_i08_d02 1.0",
  "bbob-biobj_f57_i08_d03 1.0",
  "bbob-biobj_f57_i08_d05 1.0",
  "bbob-biobj_f57_i08_d10 1.0",
  "bbob-biobj_f57_i08_d20 1.0",
  "bbob-biobj_f57_i08_d40 1.0",
  "bbob-biobj_f57_i09_d02 1.0",
  "bbob-biobj_f57_i09_d03 1.0",
  "bbob-biobj_f57_i09_d05 1.0",
  "bbob-biobj_f57_i09_d10 1.0",
  "bbob-biobj_f57_i09_d20 1.0",
  "bbob-biobj_f57_i09_d40 1.0",
  "bbob-biobj_f57_i10_d02 1.0",
  "bbob-biobj_f57_i10_d03 1.0",
  "bbob-biobj_f57_i10_d05 1.0",
  "bbob-biobj_f57_i10_d10 1.0",
  "bbob-biobj_f57_i10_d20 1.0",
  "bbob-biobj_f57_i10_d40 1.0",
  "bbob-biobj_f57_i11_d02 1.0",
  "bbob-biobj_f57_i11_d03 1.0",
  "bbob-biobj_f57_i11_d05 1.0",
  "bbob-biobj_f57_i11_d10 1.0",
  "bbob-biobj_f57_i11_d20 1.0",
  "bbob-biobj_f57_i11_d40 1.0",
  "bbob-biobj_f57_i12_d02 1.0",
  "bbob-biobj_f57_i12_d03 1.0",
  "bbob-biobj_f57_i12_d05 1.0",
  "bbob-biobj_f57_i12_d10 1.0",
  "bbob-biobj_f57_i12_d20 1.0",
  "bbob-biobj_f57_i12_d40 1.0",
  "bbob-biobj_f57_i13_d02 1.0",
  "bbob-biobj_f57_i13_d03 1.0",
  "bbob-biobj_f57_i13_d05 1.0",
  "bbob-biobj_f57_i13_d10 1.0",
  "bbob-biobj_f57_i13_d20 1.0",
  "bbob-biobj_f57_i13_d40 1.0",
  "bbob-biobj_f57_i14_d02 1.0",
  "bbob-biobj_f57_i14_d03 1.0",
  "bbob-biobj_f57_i14_d05 1.0",
  "bbob-biobj_f57_i14_d10 1.0",
  "bbob-biobj_f57_i14_d20 1.0",
  "bbob-biobj_f57_i14_d40 1.0",
  "bbob-biobj_f57_i15_d02 1.0",
  "bbob-biobj_f57_i15_d03 1.0",
  "bbob-biobj_f57_i15_d05 1.0",
  "bbob-biobj_f57_i15_d10 1.0",
  "bbob-biobj_f57_i15_d20 1.0",
  "bbob-biobj_f57_i15_d40 1.0",
  "bbob-biobj_f58_i01_d02 1.0",
  "bbob-biobj_f58_i01_d03 1.0",
  "bbob-biobj_f58_i01_d05 1.0",
  "bbob-biobj_f58_i01_d10 1.0",
  "bbob-biobj_f58_i01_d20 1.0",
  "bbob-biobj_f58_i01_d40 1.0",
  "bbob-biobj_f58_i02_d02 1.0",
  "bbob-biobj_f58_i02_d03 1.0",
  "bbob-biobj_f58_i02_d05 1.0",
  "bbob-biobj_f58_i02_d10 1.0",
  "bbob-biobj_f58_i02_d20 1.0",
  "bbob-biobj_f58_i02_d40 1.0",
  "bbob-biobj_f58_i03_d02 1.0",
  "bbob-biobj_f58_i03_d03 1.0",
  "bbob-biobj_f58_i03_d05 1.0",
  "bbob-biobj_f58_i03_d10 1.0",
  "bbob-biobj_f58_i03_d20 1.0",
  "bbob-biobj_f58_i03_d40 1.0",
  "bbob-biobj_f58_i04_d02 1.0",
  "bbob-biobj_f58_i04_d03 1.0",
  "bbob-biobj_f58_i04_d05 1.0",
  "bbob-biobj_f58_i04_d10 1.0",
  "bbob-biobj_f58_i04_d20 1.0",
  "bbob-biobj_f58_i04_d40 1.0",
  "bbob-biobj_f58_i05_d02 1.0",
  "bbob-biobj_f58_i05_d03 1.0",
  "bbob-biobj_f58_i05_d05 1.0",
  "bbob-biobj_f58_i05_d10 1.0",
  "bbob-biobj_f58_i05_d20 1.0",
  "bbob-biobj_f58_i05_d40 1.0",
  "bbob-biobj_f58_i06_d02 1.0",
  "bbob-biobj_f58_i06_d03 1.0",
  "bbob-biobj_f58_i06_d05 1.0",
  "bbob-biobj_f58_i06_d10 1.0",
  "bbob-biobj_f58_i06_d20 1.0",
  "bbob-biobj_f58_i06_d40 1.0",
  "bbob-biobj_f58_i07_d02 1.0",
  "bbob-biobj_f58_i07_d03 1.0",
  "bbob-biobj_f58_i07_d05 1.0",
  "bbob-biobj_f58_i07_d10 1.0",
  "bbob-biobj_f58_i07_d20 1.0",
  "bbob-biobj_f58_i07_d40 1.0",
  "bbob-biobj_f58_i08_d02 1.0",
  "bbob-biobj_f58_i08_d03 1.0",
  "bbob-biobj_f58_i08_d05 1.0",
  "bbob-biobj_f58_i08_d10 1.0",
  "bbob-biobj_f58_i08_d20 1.0",
  "bbob-biobj_f58_i08_d40 1.0",
  "bbob-biobj_f58_i09_d02 1.0",
  "bbob-biobj_f58_i09_d03 1.0",
  "bbob-biobj_f58_i09_d05 1.0",
  "bbob-biobj_f58_i09_d10 1.0",
  "bbob-biobj_f58_i09_d20 1.0",
  "bbob-biobj_f58_i09_d40 1.0",
  "bbob-biobj_f58_i10_d02 1.0",
  "bbob-biobj_f58_i10_d03 1.0",
  "bbob-biobj_f58_i10_d05 1.0",
  "bbob-biobj_f58_i10_d10 1.0",
  "bbob-biobj_f58_i10_d20 1.0",
  "bbob-biobj_f58_i10_d40 1.0",
  "bbob-biobj_f58_i11_d02 1.0",
  "bbob-biobj_f58_i11_d03 1.0",
  "bbob-biobj_f58_i11_d05 1.0",
  "bbob-biobj_f58_i11_d10 1.0",
  "bbob-biobj_f58_i11_d20 1.0",
  "bbob-biobj_f58_i11_d40 1.0",
  "bbob-biobj_f58_i12_d02 1.0",
  "bbob-biobj_f58_i12_d03 1.0",
  "bbob-biobj_f58_i12_d05 1.0",
  "bbob-biobj_f58_i12_d10 1.0",
  "bbob-biobj_f58_i12_d20 1.0",
  "bbob-biobj_f58_i12_d40 1.0",
  "bbob-biobj_f58_i13_d02 1.0",
  "bbob-biobj_f58_i13_d03 1.0",
  "bbob-biobj_f58_i13_d05 1.0",
  "bbob-biobj_f58_i13_d10 1.0",
  "bbob-biobj_f58_i13_d20 1.0",
  "bbob-biobj_f58_i13_d40 1.0",
  "bbob-biobj_f58_i14_d02 1.0",
  "bbob-biobj_f58_i14_d03 1.0",
  "bbob-biobj_f58_i14_d05 1.0",
  "bbob-biobj_f58_i14_d10 1.0",
  "bbob-biobj_f58_i14_d20 1.0",
  "bbob-biobj_f58_i14_d40 1.0",
  "bbob-biobj_f58_i15_d02 1.0",
  "bbob-biobj_f58_i15_d03 1.0",
  "bbob-biobj_f58_i15_d05 1.0",
  "bbob-biobj_f58_i15_d10 1.0",
  "bbob-biobj_f58_i15_d20 1.0",
  "bbob-biobj_f58_i15_d40 1.0",
  "bbob-biobj_f59_i01_d02 1.0",
  "bbob-biobj_f59_i01_d03 1.0",
  "bbob-biobj_f59_i01_d05 1.0",
  "bbob-biobj_f59_i01_d10 1.0",
  "bbob-biobj_f59_i01_d20 1.0",
  "bbob-biobj_f59_i01_d40 1.0",
  "bbob-biobj_f59_i02_d02 1.0",
  "bbob-biobj_f59_i02_d03 1.0",
  "bbob-biobj_f59_i02_d05 1.0",
  "bbob-biobj_f59_i02_d10 1.0",
  "bbob-biobj_f59_i02_d20 1.0",
  "bbob-biobj_f59_i02_d40 1.0",
  "bbob-biobj_f59_i03_d02 1.0",
  "bbob-biobj_f59_i03_d03 1.0",
  "bbob-biobj_f59_i03_d05 1.0",
  "bbob-biobj_f59_i03_d10 1.0",
  "bbob-biobj_f59_i03_d20 1.0",
  "bbob-biobj_f59_i03_d40 1.0",
  "bbob-biobj_f59_i04_d02 1.0",
  "bbob-biobj_f59_i04_d03 1.0",
  "bbob-biobj_f59_i04_d05 1.0",
  "bbob-biobj_f59_i04_d10 1.0",
  "bbob-biobj_f59_i04_d20 1.0",
  "bbob-biobj_f59_i04_d40 1.0",
  "bbob-biobj_f59_i05_d02 1.0",
  "bbob-biobj_f59_i05_d03 1.0",
  "bbob-biobj_f59_i05_d05 1.0",
  "bbob-biobj_f59_i05_d10 1.0",
  "bbob-biobj_f59_i05_d20 1.0",
  "bbob-biobj_f59_i05_d40 1.0",
  "bbob-biobj_f59_i06_d02 1.0",
  "bbob-biobj_f59_i06_d03 1.0",
  "bbob-biobj_f59_i06_d05 1.0",
  "bbob-biobj_f59_i06_d10 1.0",
  "bbob-biobj_f59_i06_d20 1.0",
  "bbob-biobj_f59_i06_d40 1.0",
  "bbob-biobj_f59_i07_d02 1.0",
  "bbob-biobj_f59_i07_d03 1.0",
  "bbob-biobj_f59_i07_d05 1.0",
  "bbob-biobj_f59_i07_d10 1.0",
  "bbob-biobj_f59_i07_d20 1.0",
  "bbob-biobj_f59_i07_d40 1.0",
  "bbob-biobj_f59_i08_d02 1.0",
  "bbob-biobj_f59_i08_d03 1.0",
  "bbob-biobj_f59_i08_d05 1.0",
  "bbob-biobj_f59_i08_d10 1.0",
  "bbob-biobj_f59_i08_d20 1.0",
  "bbob-biobj_f59_i08_d40 1.0",
  "bbob-biobj_f59_i09_d02 1.0",
  "bbob-biobj_f59_i09_d03 1.0",
  "bbob-biobj_f59_i09_d05 1.0",
  "bbob-biobj_f59_i09_d10 1.0",
  "bbob-biobj_f59_i09_d20 1.0",
  "bbob-biobj_f59_i09_d40 1.0",
  "bbob-biobj_f59_i10_d02 1.0",
  "bbob-biobj_f59_i10_d03 1.0",
  "bbob-biobj_f59_i10_d05 1.0",
  "bbob-biobj_f59_i10_d10 1.0",
  "bbob-biobj_f59_i10_d20 1.0",
  "bbob-biobj_f59_i10_d40 1.0",
  "bbob-biobj_f59_i11_d02 1.0",
  "bbob-biobj_f59_i11_d03 1.0",
  "bbob-biobj_f59_i11_d05 1.0",
  "bbob-biobj_f59_i11_d10 1.0",
  "bbob-biobj_f59_i11_d20 1.0",
  "bbob-biobj_f59_i11_d40 1.0",
  "bbob-biobj_f59_i12_d02 1.0",
  "bbob-biobj_f59_i12_d03 1.0",
  "bbob-biobj_f59_i12_d05 1.0",
  "bbob-biobj_f59_i12_d10 1.0",
  "bbob-biobj_f59_i12_d20 1.0",
  "bbob-biobj_f59_i12_d40 1.0",
  "bbob-biobj_f59_i13_d02 1.0",
  "bbob-biobj_f59_i13_d03 1.0",
  "bbob-biobj_f59_i13_d05 1.0",
  "bbob-biobj_f59_i13_d10 1.0",
  "bbob-biobj_f59_i13_d20 1.0",
  "bbob-biobj_f59_i13_d40 1.0",
  "bbob-biobj_f59_i14_d02 1.0",
  "bbob-biobj_f59_i14_d03 1.0",
  "bbob-biobj_f59_i14_d05 1.0",
  "bbob-biobj_f59_i14_d10 1.0",
  "bbob-biobj_f59_i14_d20 1.0",
  "bbob-biobj_f59_i14_d40 1.0",
  "bbob-biobj_f59_i15_d02 1.0",
  "bbob-biobj_f59_i15_d03 1.0",
  "bbob-biobj_f59_i15_d05 1.0",
  "bbob-biobj_f59_i15_d10 1.0",
  "bbob-biobj_f59_i15_d20 1.0",
  "bbob-biobj_f59_i15_d40 1.0",
  "bbob-biobj_f60_i01_d02 1.0",
  "bbob-biobj_f60_i01_d03 1.0",
  "bbob-biobj_f60_i01_d05 1.0",
  "bbob-biobj_f60_i01_d10 1.0",
  "bbob-biobj_f60_i01_d20 1.0",
  "bbob-biobj_f60_i01_d40 1.0",
  "bbob-biobj_f60_i02_d02 1.0",
  "bbob-biobj_f60_i02_d03 1.0",
  "bbob-biobj_f60_i02_d05 1.0",
  "bbob-biobj_f60_i02_d10 1.0",
  "bbob-biobj_f60_i02_d20 1.0",
  "bbob-biobj_f60_i02_d40 1.0",
  "bbob-biobj_f60_i03_d02 1.0",
  "bbob-biobj_f60_i03_d03 1.0",
  "bbob-biobj_f60_i03_d05 1.0",
  "bbob-biobj_f60_i03_d10 1.0",
  "bbob-biobj_f60_i03_d20 1.0",
  "bbob-biobj_f60_i03_d40 1.0",
  "bbob-biobj_f60_i04_d02 1.0",
  "bbob-biobj_f60_i04_d03 1.0",
  "bbob-biobj_f60_i04_d05 1.0",
  "bbob-biobj_f60_i04_d10 1.0",
  "bbob-biobj_f60_i04_d20 1.0",
  "bbob-biobj_f60_i04_d40 1.0",
  "bbob-biobj_f60_i05_d02 1.0",
  "bbob-biobj_f60_i05_d03 1.0",
  "bbob-biobj_f60_i05_d05 1.0",
  "bbob-biobj_f60_i05_d10 1.0",
  "bbob-biobj_f60_i05_d20 1.0",
  "bbob-biobj_f60_i05_d40 1.0",
  "bbob-biobj_f60_i06_d02 1.0",
  "bbob-biobj_f60_i06_d03 1.0",
  "bbob-biobj_f60_i06_d05 1.0",
  "bbob-biobj_f60_i06_d10 1.0",
  "bbob-biobj_f60_i06_d20 1.0",
  "bbob-biobj_f60_i06_d40 1.0",
  "bbob-biobj_f60_i07_d02 1.0",
  "bbob-biobj_f60_i07_d03 1.0",
  "bbob-biobj_f60_i07_d05 1.0",
  "bbob-biobj_f60_i07_d10 1.0",
  "bbob-biobj_f60_i07_d20 1.0",
  "bbob-biobj_f60_i07_d40 1.0",
  "bbob-biobj_f60_i08_d02 1.0",
  "bbob-biobj_f60_i08_d03 1.0",
  "bbob-biobj_f60_i08_d05 1.0",
  "bbob-biobj_f60_i08_d10 1.0",
  "bbob-biobj_f60_i08_d20 1.0",
  "bbob-biobj_f60_i08_d40 1.0",
  "bbob-biobj_f60_i09_d02 1.0",
  "bbob-biobj_f60_i09_d03 1.0",
  "bbob-biobj_f60_i09_d05 1.0",
  "bbob-biobj_f60_i09_d10 1.0",
  "bbob-biobj_f60_i09_d20 1.0",
  "bbob-biobj_f60_i09_d40 1.0",
  "bbob-biobj_f60_i10_d02 1.0",
  "bbob-biobj_f60_i10_d03 1.0",
  "bbob-biobj_f60_i10_d05 1.0",
  "bbob-biobj_f60_i10_d10 1.0",
  "bbob-biobj_f60_i10_d20 1.0",
  "bbob-biobj_f60_i10_d40 1.0",
  "bbob-biobj_f60_i11_d02 1.0",
  "bbob-biobj_f60_i11_d03 1.0",
  "bbob-biobj_f60_i11_d05 1.0",
  "bbob-biobj_f60_i11_d10 1.0",
  "bbob-biobj_f60_i11_d20 1.0",
  "bbob-biobj_f60_i11_d40 1.0",
  "bbob-biobj_f60_i12_d02 1.0",
  "bbob-biobj_f60_i12_d03 1.0",
  "bbob-biobj_f60_i12_d05 1.0",
  "bbob-biobj_f60_i12_d10 1.0",
  "bbob-biobj_f60_i12_d20 1.0",
  "bbob-biobj_f60_i12_d40 1.0",
  "bbob-biobj_f60_i13_d02 1.0",
  "bbob-biobj_f60_i13_d03 1.0",
  "bbob-biobj_f60_i13_d05 1.0",
  "bbob-biobj_f60_i13_d10 1.0",
  "bbob-biobj_f60_i13_d20 1.0",
  "bbob-biobj_f60_i13_d40 1.0",
  "bbob-biobj_f60_i14_d02 1.0",
  "bbob-biobj_f60_i14_d03 1.0",
  "bbob-biobj_f60_i14_d05 1.0",
  "bbob-biobj_f60_i14_d10 1.0",
  "bbob-biobj_f60_i14_d20 1.0",
  "bbob-biobj_f60_i14_d40 1.0",
  "bbob-biobj_f60_i15_d02 1.0",
  "bbob-biobj_f60_i15_d03 1.0",
  "bbob-biobj_f60_i15_d05 1.0",
  "bbob-biobj_f60_i15_d10 1.0",
  "bbob-biobj_f60_i15_d20 1.0",
  "bbob-biobj_f60_i15_d40 1.0",
  "bbob-biobj_f61_i01_d02 1.0",
  "bbob-biobj_f61_i01_d03 1.0",
  "bbob-biobj_f61_i01_d05 1.0",
  "bbob-biobj_f61_i01_d10 1.0",
  "bbob-biobj_f61_i01_d20 1.0",
  "bbob-biobj_f61_i01_d40 1.0",
  "bbob-biobj_f61_i02_d02 1.0",
  "bbob-biobj_f61_i02_d03 1.0",
  "bbob-biobj_f61_i02_d05 1.0",
  "bbob-biobj_f61_i02_d10 1.0",
  "bbob-biobj_f61_i02_d20 1.0",
  "bbob-biobj_f61_i02_d40 1.0",
  "bbob-biobj_f61_i03_d02 1.0",
  "bbob-biobj_f61_i03_d03 1.0",
  "bbob-biobj_f61_i03_d05 1.0",
  "bbob-biobj_f61_i03_d10 1.0",
  "bbob-biobj_f61_i03_d20 1.0",
  "bbob-biobj_f61_i03_d40 1.0",
  "bbob-biobj_f61_i04_d02 1.0",
  "bbob-biobj_f61_i04_d03 1.0",
  "bbob-biobj_f61_i04_d05 1.0",
  "bbob-biobj_f61_i04_d10 1.0",
  "bbob-biobj_f61_i04_d20 1.0",
  "bbob-biobj_f61_i04_d40 1.0",
  "bbob-biobj_f61_i05_d02 1.0",
  "bbob-biobj_f61_i05_d03 1.0",
  "bbob-biobj_f61_i05_d05 1.0",
  "bbob-biobj_f61_i05_d10 1.0",
  "bbob-biobj_f61_i05_d20 1.0",
  "bbob-biobj_f61_i05_d40 1.0",
  "bbob-biobj_f61_i06_d02 1.0",
  "bbob-biobj_f61_i06_d03 1.0",
  "bbob-biobj_f61_i06_d05 1.0",
  "bbob-biobj_f61_i06_d10 1.0",
  "bbob-biobj_f61_i06_d20 1.0",
  "bbob-biobj_f61_i06_d40 1.0",
  "bbob-biobj_f61_i07_d02 1.0",
  "bbob-biobj_f61_i07_d03 1.0",
  "bbob-biobj_f61_i07_d05 1.0",
  "bbob-biobj_f61_i07_d10 1.0",
  "bbob-biobj_f61_i07_d20 1.0",
  "bbob-biobj_f61_i07_d40 1.0",
  "bbob-biobj_f61_i08_d02 1.0",
  "bbob-biobj_f61_i08_d03 1.0",
  "bbob-biobj_f61_i08_d05 1.0",
  "bbob-biobj_f61_i08_d10 1.0",
  "bbob-biobj_f61_i08_d20 1.0",
  "bbob-biobj_f61_i08_d40 1.0",
  "bbob-biobj_f61_i09_d02 1.0",
  "bbob-biobj_f61_i09_d03 1.0",
  "bbob-biobj_f61_i09_d05 1.0",
  "bbob-biobj_f61_i09_d10 1.0",
  "bbob-biobj_f61_i09_d20 1.0",
  "bbob-biobj_f61_i09_d40 1.0",
  "bbob-biobj_f61_i10_d02 1.0",
  "bbob-biobj_f61_i10_d03 1.0",
  "bbob-biobj_f61_i10_d05 1.0",
  "bbob-biobj_f61_i10_d10 1.0",
  "bbob-biobj_f61_i10_d20 1.0",
  "bbob-biobj_f61_i10_d40 1.0",
  "bbob-biobj_f61_i11_d02 1.0",
  "bbob-biobj_f61_i11_d03 1.0",
  "bbob-biobj_f61_i11_d05 1.0",
  "bbob-biobj_f61_i11_d10 1.0",
  "bbob-biobj_f61_i11_d20 1.0",
  "bbob-biobj_f61_i11_d40 1.0",
  "bbob-biobj_f61_i12_d02 1.0",
  "bbob-biobj_f61_i12_d03 1.0",
  "bbob-biobj_f61_i12_d05 1.0",
  "bbob-biobj_f61_i12_d10 1.0",
  "bbob-biobj_f61_i12_d20 1.0",
  "bbob-biobj_f61_i12_d40 1.0",
  "bbob-biobj_f61_i13_d02 1.0",
  "bbob-biobj_f61_i13_d03 1.0",
  "bbob-biobj_f61_i13_d05 1.0",
  "bbob-biobj_f61_i13_d10 1.0",
  "bbob-biobj_f61_i13_d20 1.0",
  "bbob-biobj_f61_i13_d40 1.0",
  "bbob-biobj_f61_i14_d02 1.0",
  "bbob-biobj_f61_i14_d03 1.0",
  "bbob-biobj_f61_i14_d05 1.0",
  "bbob-biobj_f61_i14_d10 1.0",
  "bbob-biobj_f61_i14_d20 1.0",
  "bbob-biobj_f61_i14_d40 1.0",
  "bbob-biobj_f61_i15_d02 1.0",
  "bbob-biobj_f61_i15_d03 1.0",
  "bbob-biobj_f61_i15_d05 1.0",
  "bbob-biobj_f61_i15_d10 1.0",
  "bbob-biobj_f61_i15_d20 1.0",
  "bbob-biobj_f61_i15_d40 1.0",
  "bbob-biobj_f62_i01_d02 1.0",
  "bbob-biobj_f62_i01_d03 1.0",
  "bbob-biobj_f62_i01_d05 1.0",
  "bbob-biobj_f62_i01_d10 1.0",
  "bbob-biobj_f62_i01_d20 1.0",
  "bbob-biobj_f62_i01_d40 1.0",
  "bbob-biobj_f62_i02_d02 1.0",
  "bbob-biobj_f62_i02_d03 1.0",
  "bbob-biobj_f62_i02_d05 1.0",
  "bbob-biobj_f62_i02_d10 1.0",
  "bbob-biobj_f62_i02_d20 1.0",
  "bbob-biobj_f62_i02_d40 1.0",
  "bbob-biobj_f62_i03_d02 1.0",
  "bbob-biobj_f62_i03_d03 1.0",
  "bbob-biobj_f62_i03_d05 1.0",
  "bbob-biobj_f62_i03_d10 1.0",
  "bbob-biobj_f62_i03_d20 1.0",
  "bbob-biobj_f62_i03_d40 1.0",
  "bbob-biobj_f62_i04_d02 1.0",
  "bbob-biobj_f62_i04_d03 1.0",
  "bbob-biobj_f62_i04_d05 1.0",
  "bbob-biobj_f62_i04_d10 1.0",
  "bbob-biobj_f62_i04_d20 1.0",
  "bbob-biobj_f62_i04_d40 1.0",
  "bbob-biobj_f62_i05_d02 1.0",
  "bbob-biobj_f62_i05_d03 1.0",
  "bbob-biobj_f62_i05_d05 1.0",
  "bbob-biobj_f62_i05_d10 1.0",
  "bbob-biobj_f62_i05_d20 1.0",
  "bbob-biobj_f62_i05_d40 1.0",
  "bbob-biobj_f62_i06_d02 1.0",
  "bbob-biobj_f62_i06_d03 1.0",
  "bbob-biobj_f62_i06_d05 1.0",
  "bbob-biobj_f62_i06_d10 1.0",
  "bbob-biobj_f62_i06_d20 1.0",
  "bbob-biobj_f62_i06_d40 1.0",
  "bbob-biobj_f62_i07_d02 1.0",
  "bbob-biobj_f62_i07_d03 1.0",
  "bbob-biobj_f62_i07_d05 1.0",
  "bbob-biobj_f62_i07_d10 1.0",
  "bbob-biobj_f62_i07_d20 1.0",
  "bbob-biobj_f62_i07_d40 1.0",
  "bbob-biobj_f62_i08_d02 1.0",
  "bbob-biobj_f62_i08_d03 1.0",
  "bbob-biobj_f62_i08_d05 1.0",
  "bbob-biobj_f62_i08_d10 1.0",
  "bbob-biobj_f62_i08_d20 1.0",
  "bbob-biobj_f62_i08_d40 1.0",
  "bbob-biobj_f62_i09_d02 1.0",
  "bbob-biobj_f62_i09_d03 1.0",
  "bbob-biobj_f62_i09_d05 1.0",
  "bbob-biobj_f62_i09_d10 1.0",
  "bbob-biobj_f62_i09_d20 1.0",
  "bbob-biobj_f62_i09_d40 1.0",
  "bbob-biobj_f62_i10_d02 1.0",
  "bbob-biobj_f62_i10_d03 1.0",
  "bbob-biobj_f62_i10_d05 1.0",
  "bbob-biobj_f62_i10_d10 1.0",
  "bbob-biobj_f62_i10_d20 1.0",
  "bbob-biobj_f62_i10_d40 1.0",
  "bbob-biobj_f62_i11_d02 1.0",
  "bbob-biobj_f62_i11_d03 1.0",
  "bbob-biobj_f62_i11_d05 1.0",
  "bbob-biobj_f62_i11_d10 1.0",
  "bbob-biobj_f62_i11_d20 1.0",
  "bbob-biobj_f62_i11_d40 1.0",
  "bbob-biobj_f62_i12_d02 1.0",
  "bbob-biobj_f62_i12_d03 1.0",
  "bbob-biobj_f62_i12_d05 1.0",
  "bbob-biobj_f62_i12_d10 1.0",
  "bbob-biobj_f62_i12_d20 1.0",
  "bbob-biobj_f62_i12_d40 1.0",
  "bbob-biobj_f62_i13_d02 1.0",
  "bbob-biobj_f62_i13_d03 1.0",
  "bbob-biobj_f62_i13_d05 1.0",
  "bbob-biobj_f62_i13_d10 1.0",
  "bbob-biobj_f62_i13_d20 1.0",
  "bbob-biobj_f62_i13_d40 1.0",
  "bbob-biobj_f62_i14_d02 1.0",
  "bbob-biobj_f62_i14_d03 1.0",
  "bbob-biobj_f62_i14_d05 1.0",
  "bbob-biobj_f62_i14_d10 1.0",
  "bbob-biobj_f62_i14_d20 1.0",
  "bbob-biobj_f62_i14_d40 1.0",
  "bbob-biobj_f62_i15_d02 1.0",
  "bbob-biobj_f62_i15_d03 1.0",
  "bbob-biobj_f62_i15_d05 1.0",
  "bbob-biobj_f62_i15_d10 1.0",
  "bbob-biobj_f62_i15_d20 1.0",
  "bbob-biobj_f62_i15_d40 1.0",
  "bbob-biobj_f63_i01_d02 1.0",
  "bbob-biobj_f63_i01_d03 1.0",
  "bbob-biobj_f63_i01_d05 1.0",
  "bbob-biobj_f63_i01_d10 1.0",
  "bbob-biobj_f63_i01_d20 1.0",
  "bbob-biobj_f63_i01_d40 1.0",
  "bbob-biobj_f63_i02_d02 1.0",
  "bbob-biobj_f63_i02_d03 1.0",
  "bbob-biobj_f63_i02_d05 1.0",
  "bbob-biobj_f63_i02_d10 1.0",
  "bbob-biobj_f63_i02_d20 1.0",
  "bbob-biobj_f63_i02_d40 1.0",
  "bbob-biobj_f63_i03_d02 1.0",
  "bbob-biobj_f63_i03_d03 1.0",
  "bbob-biobj_f63_i03_d05 1.0",
  "bbob-biobj_f63_i03_d10 1.0",
  "bbob-biobj_f63_i03_d20 1.0",
  "bbob-biobj_f63_i03_d40 1.0",
  "bbob-biobj_f63_i04_d02 1.0",
  "bbob-biobj_f63_i04_d03 1.0",
  "bbob-biobj_f63_i04_d05 1.0",
  "bbob-biobj_f63_i04_d10 1.0",
  "bbob-biobj_f63_i04_d20 1.0",
  "bbob-biobj_f63_i04_d40 1.0",
  "bbob-biobj_f63_i05_d02 1.0",
  "bbob-biobj_f63_i05_d03 1.0",
  "bbob-biobj_f63_i05_d05 1.0",
  "bbob-biobj_f63_i05_d10 1.0",
  "bbob-biobj_f63_i05_d20 1.0",
  "bbob-biobj_f63_i05_d40 1.0",
  "bbob-biobj_f63_i06_d02 1.0",
  "bbob-biobj_f63_i06_d03 1.0",
  "bbob-biobj_f63_i06_d05 1.0",
  "bbob-biobj_f63_i06_d10 1.0",
  "bbob-biobj_f63_i06_d20 1.0",
  "bbob-biobj_f63_i06_d40 1.0",
  "bbob-biobj_f63_i07_d02 1.0",
  "bbob-biobj_f63_i07_d03 1.0",
  "bbob-biobj_f63_i07_d05 1.0",
  "bbob-biobj_f63_i07_d10 1.0",
  "bbob-biobj_f63_i07_d20 1.0",
  "bbob-biobj_f63_i07_d40 1.0",
  "bbob-biobj_f63_i08_d02 1.0",
  "bbob-biobj_f63_i08_d03 1.0",
  "bbob-biobj_f63_i08_d05 1.0",
  "bbob-biobj_f63_i08_d10 1.0",
  "bbob-biobj_f63_i08_d20 1.0",
  "bbob-biobj_f63_i08_d40 1.0",
  "bbob-biobj_f63_i09_d02 1.0",
  "bbob-biobj_f63_i09_d03 1.0",
  "bbob-biobj_f63_i09_d05 1.0",
  "bbob-biobj_f63_i09_d10 1.0",
  "bbob-biobj_f63_i09_d20 1.0",
  "bbob-biobj_f63_i09_d40 1.0",
  "bbob-biobj_f63_i10_d02 1.0",
  "bbob-biobj_f63_i10_d03 1.0",
  "bbob-biobj_f63_i10_d05 1.0",
  "bbob-biobj_f63_i10_d10 1.0",
  "bbob-biobj_f63_i10_d20 1.0",
  "bbob-biobj_f63_i10_d40 1.0",
  "bbob-biobj_f63_i11_d02 1.0",
  "bbob-biobj_f63_i11_d03 1.0",
  "bbob-biobj_f63_i11_d05 1.0",
  "bbob-biobj_f63_i11_d10 1.0",
  "bbob-biobj_f63_i11_d20 1.0",
  "bbob-biobj_f63_i11_d40 1.0",
  "bbob-biobj_f63_i12_d02 1.0",
  "bbob-biobj_f63_i12_d03 1.0",
  "bbob-biobj_f63_i12_d05 1.0",
  "bbob-biobj_f63_i12_d10 1.0",
  "bbob-biobj_f63_i12_d20 1.0",
  "bbob-biobj_f63_i12_d40 1.0",
  "bbob-biobj_f63_i13_d02 1.0",
  "bbob-biobj_f63_i13_d03 1.0",
  "bbob-biobj_f63_i13_d05 1.0",
  "bbob-biobj_f63_i13_d10 1.0",
  "bbob-biobj_f63_i13_d20 1.0",
  "bbob-biobj_f63_i13_d40 1.0",
  "bbob-biobj_f63_i14_d02 1.0",
  "bbob-biobj_f63_i14_d03 1.0",
  "bbob-biobj_f63_i14_d05 1.0",
  "bbob-biobj_f63_i14_d10 1.0",
  "bbob-biobj_f63_i14_d20 1.0",
  "bbob-biobj_f63_i14_d40 1.0",
  "bbob-biobj_f63_i15_d02 1.0",
  "bbob-biobj_f63_i15_d03 1.0",
  "bbob-biobj_f63_i15_d05 1.0",
  "bbob-biobj_f63_i15_d10 1.0",
  "bbob-biobj_f63_i15_d20 1.0",
  "bbob-biobj_f63_i15_d40 1.0",
  "bbob-biobj_f64_i01_d02 1.0",
  "bbob-biobj_f64_i01_d03 1.0",
  "bbob-biobj_f64_i01_d05 1.0",
  "bbob-biobj_f64_i01_d10 1.0",
  "bbob-biobj_f64_i01_d20 1.0",
  "bbob-biobj_f64_i01_d40 1.0",
  "bbob-biobj_f64_i02_d02 1.0",
  "bbob-biobj_f64_i02_d03 1.0",
  "bbob-biobj_f64_i02_d05 1.0",
  "bbob-biobj_f64_i02_d10 1.0",
  "bbob-biobj_f64_i02_d20 1.0",
  "bbob-biobj_f64_i02_d40 1.0",
  "bbob-biobj_f64_i03_d02 1.0",
  "bbob-biobj_f64_i03_d03 1.0",
  "bbob-biobj_f64_i03_d05 1.0",
  "bbob-biobj_f64_i03_d10 1.0",
  "bbob-biobj_f64_i03_d20 1.0",
  "bbob-biobj_f64_i03_d40 1.0",
  "bbob-biobj_f64_i04_d02 1.0",
  "bbob-biobj_f64_i04_d03 1.0",
  "bbob-biobj_f64_i04_d05 1.0",
  "bbob-biobj_f64_i04_d10 1.0",
  "bbob-biobj_f64_i04_d20 1.0",
  "bbob-biobj_f64_i04_d40 1.0",
  "bbob-biobj_f64_i05_d02 1.0",
  "bbob-biobj_f64_i05_d03 1.0",
  "bbob-biobj_f64_i05_d05 1.0",
  "bbob-biobj_f64_i05_d10 1.0",
  "bbob-biobj_f64_i05_d20 1.0",
  "bbob-biobj_f64_i05_d40 1.0",
  "bbob-biobj_f64_i06_d02 1.0",
  "bbob-biobj_f64_i06_d03 1.0",
  "bbob-biobj_f64_i06_d05 1.0",
  "bbob-biobj_f64_i06_d10 1.0",
  "bbob-biobj_f64_i06_d20 1.0",
  "bbob-biobj_f64_i06_d40 1.0",
  "bbob-biobj_f64_i07_d02 1.0",
  "bbob-biobj_f64_i07_d03 1.0",
  "bbob-biobj_f64_i07_d05 1.0",
  "bbob-biobj_f64_i07_d10 1.0",
  "bbob-biobj_f64_i07_d20 1.0",
  "bbob-biobj_f64_i07_d40 1.0",
  "bbob-biobj_f64_i08_d02 1.0",
  "bbob-biobj_f64_i08_d03 1.0",
  "bbob-biobj_f64_i08_d05 1.0",
  "bbob-biobj_f64_i08_d10 1.0",
  "bbob-biobj_f64_i08_d20 1.0",
  "bbob-biobj_f64_i08_d40 1.0",
  "bbob-biobj_f64_i09_d02 1.0",
  "bbob-biobj_f64_i09_d03 1.0",
  "bbob-biobj_f64_i09_d05 1.0",
  "bbob-biobj_f64_i09_d10 1.0",
  "bbob-biobj_f64_i09_d20 1.0",
  "bbob-biobj_f64_i09_d40 1.0",
  "bbob-biobj_f64_i10_d02 1.0",
  "bbob-biobj_f64_i10_d03 1.0",
  "bbob-biobj_f64_i10_d05 1.0",
  "bbob-biobj_f64_i10_d10 1.0",
  "bbob-biobj_f64_i10_d20 1.0",
  "bbob-biobj_f64_i10_d40 1.0",
  "bbob-biobj_f64_i11_d02 1.0",
  "bbob-biobj_f64_i11_d03 1.0",
  "bbob-biobj_f64_i11_d05 1.0",
  "bbob-biobj_f64_i11_d10 1.0",
  "bbob-biobj_f64_i11_d20 1.0",
  "bbob-biobj_f64_i11_d40 1.0",
  "bbob-biobj_f64_i12_d02 1.0",
  "bbob-biobj_f64_i12_d03 1.0",
  "bbob-biobj_f64_i12_d05 1.0",
  "bbob-biobj_f64_i12_d10 1.0",
  "bbob-biobj_f64_i12_d20 1.0",
  "bbob-biobj_f64_i12_d40 1.0",
  "bbob-biobj_f64_i13_d02 1.0",
  "bbob-biobj_f64_i13_d03 1.0",
  "bbob-biobj_f64_i13_d05 1.0",
  "bbob-biobj_f64_i13_d10 1.0",
  "bbob-biobj_f64_i13_d20 1.0",
  "bbob-biobj_f64_i13_d40 1.0",
  "bbob-biobj_f64_i14_d02 1.0",
  "bbob-biobj_f64_i14_d03 1.0",
  "bbob-biobj_f64_i14_d05 1.0",
  "bbob-biobj_f64_i14_d10 1.0",
  "bbob-biobj_f64_i14_d20 1.0",
  "bbob-biobj_f64_i14_d40 1.0",
  "bbob-biobj_f64_i15_d02 1.0",
  "bbob-biobj_f64_i15_d03 1.0",
  "bbob-biobj_f64_i15_d05 1.0",
  "bbob-biobj_f64_i15_d10 1.0",
  "bbob-biobj_f64_i15_d20 1.0",
  "bbob-biobj_f64_i15_d40 1.0",
  "bbob-biobj_f65_i01_d02 1.0",
  "bbob-biobj_f65_i01_d03 1.0",
  "bbob-biobj_f65_i01_d05 1.0",
  "bbob-biobj_f65_i01_d10 1.0",
  "bbob-biobj_f65_i01_d20 1.0",
  "bbob-biobj_f65_i01_d40 1.0",
  "bbob-biobj_f65_i02_d02 1.0",
  "bbob-biobj_f65_i02_d03 1.0",
  "bbob-biobj_f65_i02_d05 1.0",
  "bbob-biobj_f65_i02_d10 1.0",
  "bbob-biobj_f65_i02_d20 1.0",
  "bbob-biobj_f65_i02_d40 1.0",
  "bbob-biobj_f65_i03_d02 1.0",
  "bbob-biobj_f65_i03_d03 1.0",
  "bbob-biobj_f65_i03_d05 1.0",
  "bbob-biobj_f65_i03_d10 1.0",
  "bbob-biobj_f65_i03_d20 1.0",
  "bbob-biobj_f65_i03_d40 1.0",
  "bbob-biobj_f65_i04_d02 1.0",
  "bbob-biobj_f65_i04_d03 1.0",
  "bbob-biobj_f65_i04_d05 1.0",
  "bbob-biobj_f65_i04_d10 1.0",
  "bbob-biobj_f65_i04_d20 1.0",
  "bbob-biobj_f65_i04_d40 1.0",
  "bbob-biobj_f65_i05_d02 1.0",
  "bbob-biobj_f65_i05_d03 1.0",
  "bbob-biobj_f65_i05_d05 1.0",
  "bbob-biobj_f65_i05_d10 1.0",
  "bbob-biobj_f65_i05_d20 1.0",
  "bbob-biobj_f65_i05_d40 1.0",
  "bbob-biobj_f65_i06_d02 1.0",
  "bbob-biobj_f65_i06_d03 1.0",
  "bbob-biobj_f65_i06_d05 1.0",
  "bbob-biobj_f65_i06_d10 1.0",
  "bbob-biobj_f65_i06_d20 1.0",
  "bbob-biobj_f65_i06_d40 1.0",
  "bbob-biobj_f65_i07_d02 1.0",
  "bbob-biobj_f65_i07_d03 1.0",
  "bbob-biobj_f65_i07_d05 1.0",
  "bbob-biobj_f65_i07_d10 1.0",
  "bbob-biobj_f65_i07_d20 1.0",
  "bbob-biobj_f65_i07_d40 1.0",
  "bbob-biobj_f65_i08_d02 1.0",
  "bbob-biobj_f65_i08_d03 1.0",
  "bbob-biobj_f65_i08_d05 1.0",
  "bbob-biobj_f65_i08_d10 1.0",
  "bbob-biobj_f65_i08_d20 1.0",
  "bbob-biobj_f65_i08_d40 1.0",
  "bbob-biobj_f65_i09_d02 1.0",
  "bbob-biobj_f65_i09_d03 1.0",
  "bbob-biobj_f65_i09_d05 1.0",
  "bbob-biobj_f65_i09_d10 1.0",
  "bbob-biobj_f65_i09_d20 1.0",
  "bbob-biobj_f65_i09_d40 1.0",
  "bbob-biobj_f65_i10_d02 1.0",
  "bbob-biobj_f65_i10_d03 1.0",
  "bbob-biobj_f65_i10_d05 1.0",
  "bbob-biobj_f65_i10_d10 1.0",
  "bbob-biobj_f65_i10_d20 1.0",
  "bbob-biobj_f65_i10_d40 1.0",
  "bbob-biobj_f65_i11_d02 1.0",
  "bbob-biobj_f65_i11_d03 1.0",
  "bbob-biobj_f65_i11_d05 1.0",
  "bbob-biobj_f65_i11_d10 1.0",
  "bbob-biobj_f65_i11_d20 1.0",
  "bbob-biobj_f65_i11_d40 1.0",
  "bbob-biobj_f65_i12_d02 1.0",
  "bbob-biobj_f65_i12_d03 1.0",
  "bbob-biobj_f65_i12_d05 1.0",
  "bbob-biobj_f65_i12_d10 1.0",
  "bbob-biobj_f65_i12_d20 1.0",
  "bbob-biobj_f65_i12_d40 1.0",
  "bbob-biobj_f65_i13_d02 1.0",
  "bbob-biobj_f65_i13_d03 1.0",
  "bbob-biobj_f65_i13_d05 1.0",
  "bbob-biobj_f65_i13_d10 1.0",
  "bbob-biobj_f65_i13_d20 1.0",
  "bbob-biobj_f65_i13_d40 1.0",
  "bbob-biobj_f65_i14_d02 1.0",
  "bbob-biobj_f65_i14_d03 1.0",
  "bbob-biobj_f65_i14_d05 1.0",
  "bbob-biobj_f65_i14_d10 1.0",
  "bbob-biobj_f65_i14_d20 1.0",
  "bbob-biobj_f65_i14_d40 1.0",
  "bbob-biobj_f65_i15_d02 1.0",
  "bbob-biobj_f65_i15_d03 1.0",
  "bbob-biobj_f65_i15_d05 1.0",
  "bbob-biobj_f65_i15_d10 1.0",
  "bbob-biobj_f65_i15_d20 1.0",
  "bbob-biobj_f65_i15_d40 1.0",
  "bbob-biobj_f66_i01_d02 1.0",
  "bbob-biobj_f66_i01_d03 1.0",
  "bbob-biobj_f66_i01_d05 1.0",
  "bbob-biobj_f66_i01_d10 1.0",
  "bbob-biobj_f66_i01_d20 1.0",
  "bbob-biobj_f66_i01_d40 1.0",
  "bbob-biobj_f66_i02_d02 1.0",
  "bbob-biobj_f66_i02_d03 1.0",
  "bbob-biobj_f66_i02_d05 1.0",
  "bbob-biobj_f66_i02_d10 1.0",
  "bbob-biobj_f66_i02_d20 1.0",
  "bbob-biobj_f66_i02_d40 1.0",
  "bbob-biobj_f66_i03_d02 1.0",
  "bbob-biobj_f66_i03_d03 1.0",
  "bbob-biobj_f66_i03_d05 1.0",
  "bbob-biobj_f66_i03_d10 1.0",
  "bbob-biobj_f66_i03_d20 1.0",
  "bbob-biobj_f66_i03_d40 1.0",
  "bbob-biobj_f66_i04_d02 1.0",
  "bbob-biobj_f66_i04_d03 1.0",
  "bbob-biobj_f66_i04_d05 1.0",
  "bbob-biobj_f66_i04_d10 1.0",
  "bbob-biobj_f66_i04_d20 1.0",
  "bbob-biobj_f66_i04_d40 1.0",
  "bbob-biobj_f66_i05_d02 1.0",
  "bbob-biobj_f66_i05_d03 1.0",
  "bbob-biobj_f66_i05_d05 1.0",
  "bbob-biobj_f66_i05_d10 1.0",
  "bbob-biobj_f66_i05_d20 1.0",
  "bbob-biobj_f66_i05_d40 1.0",
  "bbob-biobj_f66_i06_d02 1.0",
  "bbob-biobj_f66_i06_d03 1.0",
  "bbob-biobj_f66_i06_d05 1.0",
  "bbob-biobj_f66_i06_d10 1.0",
  "bbob-biobj_f66_i06_d20 1.0",
  "bbob-biobj_f66_i06_d40 1.0",
  "bbob-biobj_f66_i07_d02 1.0",
  "bbob-biobj_f66_i07_d03 1.0",
  "bbob-biobj_f66_i07_d05 1.0",
  "bbob-biobj_f66_i07_d10 1.0",
  "bbob-biobj_f66_i07_d20 1.0",
  "bbob-biobj_f66_i07_d40 1.0",
  "bbob-biobj_f66_i08_d02 1.0",
  "bbob-biobj_f66_i08_d03 1.0",
  "bbob-biobj_f66_i08_d05 1.0",
  "bbob-biobj_f66_i08_d10 1.0",
  "bbob-biobj_f66_i08_d20 1.0",
  "bbob-biobj_f66_i08_d40 1.0",
  "bbob-biobj_f66_i09_d02 1.0",
  "bbob-biobj_f66_i09_d03 1.0",
  "bbob-biobj_f66_i09_d05 1.0",
  "bbob-biobj_f66_i09_d10 1.0",
  "bbob-biobj_f66_i09_d20 1.0",
  "bbob-biobj_f66_i09_d40 1.0",
  "bbob-biobj_f66_i10_d02 1.0",
  "bbob-biobj_f66_i10_d03 1.0",
  "bbob-biobj_f66_i10_d05 1.0",
  "bbob-biobj_f66_i10_d10 1.0",
  "bbob-biobj_f66_i10_d20 1.0",
  "bbob-biobj_f66_i10_d40 1.0",
  "bbob-biobj_f66_i11_d02 1.0",
  "bbob-biobj_f66_i11_d03 1.0",
  "bbob-biobj_f66_i11_d05 1.0",
  "bbob-biobj_f66_i11_d10 1.0",
  "bbob-biobj_f66_i11_d20 1.0",
  "bbob-biobj_f66_i11_d40 1.0",
  "bbob-biobj_f66_i12_d02 1.0",
  "bbob-biobj_f66_i12_d03 1.0",
  "bbob-biobj_f66_i12_d05 1.0",
  "bbob-biobj_f66_i12_d10 1.0",
  "bbob-biobj_f66_i12_d20 1.0",
  "bbob-biobj_f66_i12_d40 1.0",
  "bbob-biobj_f66_i13_d02 1.0",
  "bbob-biobj_f66_i13_d03 1.0",
  "bbob-biobj_f66_i13_d05 1.0",
  "bbob-biobj_f66_i13_d10 1.0",
  "bbob-biobj_f66_i13_d20 1.0",
  "bbob-biobj_f66_i13_d40 1.0",
  "bbob-biobj_f66_i14_d02 1.0",
  "bbob-biobj_f66_i14_d03 1.0",
  "bbob-biobj_f66_i14_d05 1.0",
  "bbob-biobj_f66_i14_d10 1.0",
  "bbob-biobj_f66_i14_d20 1.0",
  "bbob-biobj_f66_i14_d40 1.0",
  "bbob-biobj_f66_i15_d02 1.0",
  "bbob-biobj_f66_i15_d03 1.0",
  "bbob-biobj_f66_i15_d05 1.0",
  "bbob-biobj_f66_i15_d10 1.0",
  "bbob-biobj_f66_i15_d20 1.0",
  "bbob-biobj_f66_i15_d40 1.0",
  "bbob-biobj_f67_i01_d02 1.0",
  "bbob-biobj_f67_i01_d03 1.0",
  "bbob-biobj_f67_i01_d05 1.0",
  "bbob-biobj_f67_i01_d10 1.0",
  "bbob-biobj_f67_i01_d20 1.0",
  "bbob-biobj_f67_i01_d40 1.0",
  "bbob-biobj_f67_i02_d02 1.0",
  "bbob-biobj_f67_i02_d03 1.0",
  "bbob-biobj_f67_i02_d05 1.0",
  "bbob-biobj_f67_i02_d10 1.0",
  "bbob-biobj_f67_i02_d20 1.0",
  "bbob-biobj_f67_i02_d40 1.0",
  "bbob-biobj_f67_i03_d02 1.0",
  "bbob-biobj_f67_i03_d03 1.0",
  "bbob-biobj_f67_i03_d05 1.0",
  "bbob-biobj_f67_i03_d10 1.0",
  "bbob-biobj_f67_i03_d20 1.0",
  "bbob-biobj_f67_i03_d40 1.0",
  "bbob-biobj_f67_i04_d02 1.0",
  "bbob-biobj_f67_i04_d03 1.0",
  "bbob-biobj_f67_i04_d05 1.0",
  "bbob-biobj_f67_i04_d10 1.0",
  "bbob-biobj_f67_i04_d20 1.0",
  "bbob-biobj_f67_i04_d40 1.0",
  "bbob-biobj_f67_i05_d02 1.0",
  "bbob-biobj_f67_i05_d03 1.0",
  "bbob-biobj_f67_i05_d05 1.0",
  "bbob-biobj_f67_i05_d10 1.0",
  "bbob-biobj_f67_i05_d20 1.0",
  "bbob-biobj_f67_i05_d40 1.0",
  "bbob-biobj_f67_i06_d02 1.0",
  "bbob-biobj_f67_i06_d03 1.0",
  "bbob-biobj_f67_i06_d05 1.0",
  "bbob-biobj_f67_i06_d10 1.0",
  "bbob-biobj_f67_i06_d20 1.0",
  "bbob-biobj_f67_i06_d40 1.0",
  "bbob-biobj_f67_i07_d02 1.0",
  "bbob-biobj_f67_i07_d03 1.0",
  "bbob-biobj_f67_i07_d05 1.0",
  "bbob-biobj_f67_i07_d10 1.0",
  "bbob-biobj_f67_i07_d20 1.0",
  "bbob-biobj_f67_i07_d40 1.0",
  "bbob-biobj_f67_i08_d02 1.0",
  "bbob-biobj_f67_i08_d03 1.0",
  "bbob-biobj_f67_i08_d05 1.0",
  "bbob-biobj_f67_i08_d10 1.0",
  "bbob-biobj_f67_i08_d20 1.0",
  "bbob-biobj_f67_i08_d40 1.0",
  "bbob-biobj_f67_i09_d02 1.0",
  "bbob-biobj_f67_i09_d03 1.0",
  "bbob-biobj_f67_i09_d05 1.0",
  "bbob-biobj_f67_i09_d10 1.0",
  "bbob-biobj_f67_i09_d20 1.0",
  "bbob-biobj_f67_i09_d40 1.0",
  "bbob-biobj_f67_i10_d02 1.0",
  "bbob-biobj_f67_i10_d03 1.0",
  "bbob-biobj_f67_i10_d05 1.0",
  "bbob-biobj_f67_i10_d10 1.0",
  "bbob-biobj_f67_i10_d20 1.0",
  "bbob-biobj_f67_i10_d40 1.0",
  "bbob-biobj_f67_i11_d02 1.0",
  "bbob-biobj_f67_i11_d03 1.0",
  "bbob-biobj_f67_i11_d05 1.0",
  "bbob-biobj_f67_i11_d10 1.0",
  "bbob-biobj_f67_i11_d20 1.0",
  "bbob-biobj_f67_i11_d40 1.0",
  "bbob-biobj_f67_i12_d02 1.0",
  "bbob-biobj_f67_i12_d03 1.0",
  "bbob-biobj_f67_i12_d05 1.0",
  "bbob-biobj_f67_i12_d10 1.0",
  "bbob-biobj_f67_i12_d20 1.0",
  "bbob-biobj_f67_i12_d40 1.0",
  "bbob-biobj_f67_i13_d02 1.0",
  "bbob-biobj_f67_i13_d03 1.0",
  "bbob-biobj_f67_i13_d05 1.0",
  "bbob-biobj_f67_i13_d10 1.0",
  "bbob-biobj_f67_i13_d20 1.0",
  "bbob-biobj_f67_i13_d40 1.0",
  "bbob-biobj_f67_i14_d02 1.0",
  "bbob-biobj_f67_i14_d03 1.0",
  "bbob-biobj_f67_i14_d05 1.0",
  "bbob-biobj_f67_i14_d10 1.0",
  "bbob-biobj_f67_i14_d20 1.0",
  "bbob-biobj_f67_i14_d40 1.0",
  "bbob-biobj_f67_i15_d02 1.0",
  "bbob-biobj_f67_i15_d03 1.0",
  "bbob-biobj_f67_i15_d05 1.0",
  "bbob-biobj_f67_i15_d10 1.0",
  "bbob-biobj_f67_i15_d20 1.0",
  "bbob-biobj_f67_i15_d40 1.0",
  "bbob-biobj_f68_i01_d02 1.0",
  "bbob-biobj_f68_i01_d03 1.0",
  "bbob-biobj_f68_i01_d05 1.0",
  "bbob-biobj_f68_i01_d10 1.0",
  "bbob-biobj_f68_i01_d20 1.0",
  "bbob-biobj_f68_i01_d40 1.0",
  "bbob-biobj_f68_i02_d02 1.0",
  "bbob-biobj_f68_i02_d03 1.0",
  "bbob-biobj_f68_i02_d05 1.0",
  "bbob-biobj_f68_i02_d10 1.0",
  "bbob-biobj_f68_i02_d20 1.0",
  "bbob-biobj_f68_i02_d40 1.0",
  "bbob-biobj_f68_i03_d02 1.0",
  "bbob-biobj_f68_i03_d03 1.0",
  "bbob-biobj_f68_i03_d05 1.0",
  "bbob-biobj_f68_i03_d10 1.0",
  "bbob-biobj_f68_i03_d20 1.0",
  "bbob-biobj_f68_i03_d40 1.0",
  "bbob-biobj_f68_i04_d02 1.0",
  "bbob-biobj_f68_i04_d03 1.0",
  "bbob-biobj_f68_i04_d05 1.0",
  "bbob-biobj_f68_i04_d10 1.0",
  "bbob-biobj_f68_i04_d20 1.0",
  "bbob-biobj_f68_i04_d40 1.0",
  "bbob-biobj_f68_i05_d02 1.0",
  "bbob-biobj_f68_i05_d03 1.0",
  "bbob-biobj_f68_i05_d05 1.0",
  "bbob-biobj_f68_i05_d10 1.0",
  "bbob-biobj_f68_i05_d20 1.0",
  "bbob-biobj_f68_i05_d40 1.0",
  "bbob-biobj_f68_i06_d02 1.0",
  "bbob-biobj_f68_i06_d03 1.0",
  "bbob-biobj_f68_i06_d05 1.0",
  "bbob-biobj_f68_i06_d10 1.0",
  "bbob-biobj_f68_i06_d20 1.0",
  "bbob-biobj_f68_i06_d40 1.0",
  "bbob-biobj_f68_i07_d02 1.0",
  "bbob-biobj_f68_i07_d03 1.0",
  "bbob-biobj_f68_i07_d05 1.0",
  "bbob-biobj_f68_i07_d10 1.0",
  "bbob-biobj_f68_i07_d20 1.0",
  "bbob-biobj_f68_i07_d40 1.0",
  "bbob-biobj_f68_i08_d02 1.0",
  "bbob-biobj_f68_i08_d03 1.0",
  "bbob-biobj_f68_i08_d05 1.0",
  "bbob-biobj_f68_i08_d10 1.0",
  "bbob-biobj_f68_i08_d20 1.0",
  "bbob-biobj_f68_i08_d40 1.0",
  "bbob-biobj_f68_i09_d02 1.0",
  "bbob-biobj_f68_i09_d03 1.0",
  "bbob-biobj_f68_i09_d05 1.0",
  "bbob-biobj_f68_i09_d10 1.0",
  "bbob-biobj_f68_i09_d20 1.0",
  "bbob-biobj_f68_i09_d40 1.0",
  "bbob-biobj_f68_i10_d02 1.0",
  "bbob-biobj_f68_i10_d03 1.0",
  "bbob-biobj_f68_i10_d05 1.0",
  "bbob-biobj_f68_i10_d10 1.0",
  "bbob-biobj_f68_i10_d20 1.0",
  "bbob-biobj_f68_i10_d40 1.0",
  "bbob-biobj_f68_i11_d02 1.0",
  "bbob-biobj_f68_i11_d03 1.0",
  "bbob-biobj_f68_i11_d05 1.0",
  "bbob-biobj_f68_i11_d10 1.0",
  "bbob-biobj_f68_i11_d20 1.0",
  "bbob-biobj_f68_i11_d40 1.0",
  "bbob-biobj_f68_i12_d02 1.0",
  "bbob-biobj_f68_i12_d03 1.0",
  "bbob-biobj_f68_i12_d05 1.0",
  "bbob-biobj_f68_i12_d10 1.0",
  "bbob-biobj_f68_i12_d20 1.0",
  "bbob-biobj_f68_i12_d40 1.0",
  "bbob-biobj_f68_i13_d02 1.0",
  "bbob-biobj_f68_i13_d03 1.0",
  "bbob-biobj_f68_i13_d05 1.0",
  "bbob-biobj_f68_i13_d10 1.0",
  "bbob-biobj_f68_i13_d20 1.0",
  "bbob-biobj_f68_i13_d40 1.0",
  "bbob-biobj_f68_i14_d02 1.0",
  "bbob-biobj_f68_i14_d03 1.0",
  "bbob-biobj_f68_i14_d05 1.0",
  "bbob-biobj_f68_i14_d10 1.0",
  "bbob-biobj_f68_i14_d20 1.0",
  "bbob-biobj_f68_i14_d40 1.0",
  "bbob-biobj_f68_i15_d02 1.0",
  "bbob-biobj_f68_i15_d03 1.0",
  "bbob-biobj_f68_i15_d05 1.0",
  "bbob-biobj_f68_i15_d10 1.0",
  "bbob-biobj_f68_i15_d20 1.0",
  "bbob-biobj_f68_i15_d40 1.0",
  "bbob-biobj_f69_i01_d02 1.0",
  "bbob-biobj_f69_i01_d03 1.0",
  "bbob-biobj_f69_i01_d05 1.0",
  "bbob-biobj_f69_i01_d10 1.0",
  "bbob-biobj_f69_i01_d20 1.0",
  "bbob-biobj_f69_i01_d40 1.0",
  "bbob-biobj_f69_i02_d02 1.0",
  "bbob-biobj_f69_i02_d03 1.0",
  "bbob-biobj_f69_i02_d05 1.0",
  "bbob-biobj_f69_i02_d10 1.0",
  "bbob-biobj_f69_i02_d20 1.0",
  "bbob-biobj_f69_i02_d40 1.0",
  "bbob-biobj_f69_i03_d02 1.0",
  "bbob-biobj_f69_i03_d03 1.0",
  "bbob-biobj_f69_i03_d05 1.0",
  "bbob-biobj_f69_i03_d10 1.0",
  "bbob-biobj_f69_i03_d20 1.0",
  "bbob-biobj_f69_i03_d40 1.0",
  "bbob-biobj_f69_i04_d02 1.0",
  "bbob-biobj_f69_i04_d03 1.0",
  "bbob-biobj_f69_i04_d05 1.0",
  "bbob-biobj_f69_i04_d10 1.0",
  "bbob-biobj_f69_i04_d20 1.0",
  "bbob-biobj_f69_i04_d40 1.0",
  "bbob-biobj_f69_i05_d02 1.0",
  "bbob-biobj_f69_i05_d03 1.0",
  "bbob-biobj_f69_i05_d05 1.0",
  "bbob-biobj_f69_i05_d10 1.0",
  "bbob-biobj_f69_i05_d20 1.0",
  "bbob-biobj_f69_i05_d40 1.0",
  "bbob-biobj_f69_i06_d02 1.0",
  "bbob-biobj_f69_i06_d03 1.0",
  "bbob-biobj_f69_i06_d05 1.0",
  "bbob-biobj_f69_i06_d10 1.0",
  "bbob-biobj_f69_i06_d20 1.0",
  "bbob-biobj_f69_i06_d40 1.0",
  "bbob-biobj_f69_i07_d02 1.0",
  "bbob-biobj_f69_i07_d03 1.0",
  "bbob-biobj_f69_i07_d05 1.0",
  "bbob-biobj_f69_i07_d10 1.0",
  "bbob-biobj_f69_i07_d20 1.0",
  "bbob-biobj_f69_i07_d40 1.0",
  "bbob-biobj_f69_i08_d02 1.0",
  "bbob-biobj_f69_i08_d03 1.0",
  "bbob-biobj_f69_i08_d05 1.0",
  "bbob-biobj_f69_i08_d10 1.0",
  "bbob-biobj_f69_i08_d20 1.0",
  "bbob-biobj_f69_i08_d40 1.0",
  "bbob-biobj_f69_i09_d02 1.0",
  "bbob-biobj_f69_i09_d03 1.0",
  "bbob-biobj_f69_i09_d05 1.0",
  "bbob-biobj_f69_i09_d10 1.0",
  "bbob-biobj_f69_i09_d20 1.0",
  "bbob-biobj_f69_i09_d40 1.0",
  "bbob-biobj_f69_i10_d02 1.0",
  "bbob-biobj_f69_i10_d03 1.0",
  "bbob-biobj_f69_i10_d05 1.0",
  "bbob-biobj_f69_i10_d10 1.0",
  "bbob-biobj_f69_i10_d20 1.0",
  "bbob-biobj_f69_i10_d40 1.0",
  "bbob-biobj_f69_i11_d02 1.0",
  "bbob-biobj_f69_i11_d03 1.0",
  "bbob-biobj_f69_i11_d05 1.0",
  "bbob-biobj_f69_i11_d10 1.0",
  "bbob-biobj_f69_i11_d20 1.0",
  "bbob-biobj_f69_i11_d40 1.0",
  "bbob-biobj_f69_i12_d02 1.0",
  "bbob-biobj_f69_i12_d03 1.0",
  "bbob-biobj_f69_i12_d05 1.0",
  "bbob-biobj_f69_i12_d10 1.0",
  "bbob-biobj_f69_i12_d20 1.0",
  "bbob-biobj_f69_i12_d40 1.0",
  "bbob-biobj_f69_i13_d02 1.0",
  "bbob-biobj_f69_i13_d03 1.0",
  "bbob-biobj_f69_i13_d05 1.0",
  "bbob-biobj_f69_i13_d10 1.0",
  "bbob-biobj_f69_i13_d20 1.0",
  "bbob-biobj_f69_i13_d40 1.0",
  "bbob-biobj_f69_i14_d02 1.0",
  "bbob-biobj_f69_i14_d03 1.0",
  "bbob-biobj_f69_i14_d05 1.0",
  "bbob-biobj_f69_i14_d10 1.0",
  "bbob-biobj_f69_i14_d20 1.0",
  "bbob-biobj_f69_i14_d40 1.0",
  "bbob-biobj_f69_i15_d02 1.0",
  "bbob-biobj_f69_i15_d03 1.0",
  "bbob-biobj_f69_i15_d05 1.0",
  "bbob-biobj_f69_i15_d10 1.0",
  "bbob-biobj_f69_i15_d20 1.0",
  "bbob-biobj_f69_i15_d40 1.0",
  "bbob-biobj_f70_i01_d02 1.0",
  "bbob-biobj_f70_i01_d03 1.0",
  "bbob-biobj_f70_i01_d05 1.0",
  "bbob-biobj_f70_i01_d10 1.0",
  "bbob-biobj_f70_i01_d20 1.0",
  "bbob-biobj_f70_i01_d40 1.0",
  "bbob-biobj_f70_i02_d02 1.0",
  "bbob-biobj_f70_i02_d03 1.0",
  "bbob-biobj_f70_i02_d05 1.0",
  "bbob-biobj_f70_i02_d10 1.0",
  "bbob-biobj_f70_i02_d20 1.0",
  "bbob-biobj_f70_i02_d40 1.0",
  "bbob-biobj_f70_i03_d02 1.0",
  "bbob-biobj_f70_i03_d03 1.0",
  "bbob-biobj_f70_i03_d05 1.0",
  "bbob-biobj_f70_i03_d10 1.0",
  "bbob-biobj_f70_i03_d20 1.0",
  "bbob-biobj_f70_i03_d40 1.0",
  "bbob-biobj_f70_i04_d02 1.0",
  "bbob-biobj_f70_i04_d03 1.0",
  "bbob-biobj_f70_i04_d05 1.0",
  "bbob-biobj_f70_i04_d10 1.0",
  "bbob-biobj_f70_i04_d20 1.0",
  "bbob-biobj_f70_i04_d40 1.0",
  "bbob-biobj_f70_i05_d02 1.0",
  "bbob-biobj_f70_i05_d03 1.0",
  "bbob-biobj_f70_i05_d05 1.0",
  "bbob-biobj_f70_i05_d10 1.0",
  "bbob-biobj_f70_i05_d20 1.0",
  "bbob-biobj_f70_i05_d40 1.0",
  "bbob-biobj_f70_i06_d02 1.0",
  "bbob-biobj_f70_i06_d03 1.0",
  "bbob-biobj_f70_i06_d05 1.0",
  "bbob-biobj_f70_i06_d10 1.0",
  "bbob-biobj_f70_i06_d20 1.0",
  "bbob-biobj_f70_i06_d40 1.0",
  "bbob-biobj_f70_i07_d02 1.0",
  "bbob-biobj_f70_i07_d03 1.0",
  "bbob-biobj_f70_i07_d05 1.0",
  "bbob-biobj_f70_i07_d10 1.0",
  "bbob-biobj_f70_i07_d20 1.0",
  "bbob-biobj_f70_i07_d40 1.0",
  "bbob-biobj_f70_i08_d02 1.0",
  "bbob-biobj_f70_i08_d03 1.0",
  "bbob-biobj_f70_i08_d05 1.0",
  "bbob-biobj_f70_i08_d10 1.0",
  "bbob-biobj_f70_i08_d20 1.0",
  "bbob-biobj_f70_i08_d40 1.0",
  "bbob-biobj_f70_i09_d02 1.0",
  "bbob-biobj_f70_i09_d03 1.0",
  "bbob-biobj_f70_i09_d05 1.0",
  "bbob-biobj_f70_i09_d10 1.0",
  "bbob-biobj_f70_i09_d20 1.0",
  "bbob-biobj_f70_i09_d40 1.0",
  "bbob-biobj_f70_i10_d02 1.0",
  "bbob-biobj_f70_i10_d03 1.0",
  "bbob-biobj_f70_i10_d05 1.0",
  "bbob-biobj_f70_i10_d10 1.0",
  "bbob-biobj_f70_i10_d20 1.0",
  "bbob-biobj_f70_i10_d40 1.0",
  "bbob-biobj_f70_i11_d02 1.0",
  "bbob-biobj_f70_i11_d03 1.0",
  "bbob-biobj_f70_i11_d05 1.0",
  "bbob-biobj_f70_i11_d10 1.0",
  "bbob-biobj_f70_i11_d20 1.0",
  "bbob-biobj_f70_i11_d40 1.0",
  "bbob-biobj_f70_i12_d02 1.0",
  "bbob-biobj_f70_i12_d03 1.0",
  "bbob-biobj_f70_i12_d05 1.0",
  "bbob-biobj_f70_i12_d10 1.0",
  "bbob-biobj_f70_i12_d20 1.0",
  "bbob-biobj_f70_i12_d40 1.0",
  "bbob-biobj_f70_i13_d02 1.0",
  "bbob-biobj_f70_i13_d03 1.0",
  "bbob-biobj_f70_i13_d05 1.0",
  "bbob-biobj_f70_i13_d10 1.0",
  "bbob-biobj_f70_i13_d20 1.0",
  "bbob-biobj_f70_i13_d40 1.0",
  "bbob-biobj_f70_i14_d02 1.0",
  "bbob-biobj_f70_i14_d03 1.0",
  "bbob-biobj_f70_i14_d05 1.0",
  "bbob-biobj_f70_i14_d10 1.0",
  "bbob-biobj_f70_i14_d20 1.0",
  "bbob-biobj_f70_i14_d40 1.0",
  "bbob-biobj_f70_i15_d02 1.0",
  "bbob-biobj_f70_i15_d03 1.0",
  "bbob-biobj_f70_i15_d05 1.0",
  "bbob-biobj_f70_i15_d10 1.0",
  "bbob-biobj_f70_i15_d20 1.0",
  "bbob-biobj_f70_i15_d40 1.0",
  "bbob-biobj_f71_i01_d02 1.0",
  "bbob-biobj_f71_i01_d03 1.0",
  "bbob-biobj_f71_i01_d05 1.0",
  "bbob-biobj_f71_i01_d10 1.0",
  "bbob-biobj_f71_i01_d20 1.0",
  "bbob-biobj_f71_i01_d40 1.0",
  "bbob-biobj_f71_i02_d02 1.0",
  "bbob-biobj_f71_i02_d03 1.0",
  "bbob-biobj_f71_i02_d05 1.0",
  "bbob-biobj_f71_i02_d10 1.0",
  "bbob-biobj_f71_i02_d20 1.0",
  "bbob-biobj_f71_i02_d40 1.0",
  "bbob-biobj_f71_i03_d02 1.0",
  "bbob-biobj_f71_i03_d03 1.0",
  "bbob-biobj_f71_i03_d05 1.0",
  "bbob-biobj_f71_i03_d10 1.0",
  "bbob-biobj_f71_i03_d20 1.0",
  "bbob-biobj_f71_i03_d40 1.0",
  "bbob-biobj_f71_i04_d02 1.0",
  "bbob-biobj_f71_i04_d03 1.0",
  "bbob-biobj_f71_i04_d05 1.0",
  "bbob-biobj_f71_i04_d10 1.0",
  "bbob-biobj_f71_i04_d20 1.0",
  "bbob-biobj_f71_i04_d40 1.0",
  "bbob-biobj_f71_i05_d02 1.0",
  "bbob-biobj_f71_i05_d03 1.0",
  "bbob-biobj_f71_i05_d05 1.0",
  "bbob-biobj_f71_i05_d10 1.0",
  "bbob-biobj_f71_i05_d20 1.0",
  "bbob-biobj_f71_i05_d40 1.0",
  "bbob-biobj_f71_i06_d02 1.0",
  "bbob-biobj_f71_i06_d03 1.0",
  "bbob-biobj_f71_i06_d05 1.0",
  "bbob-biobj_f71_i06_d10 1.0",
  "bbob-biobj_f71_i06_d20 1.0",
  "bbob-biobj_f71_i06_d40 1.0",
  "bbob-biobj_f71_i07_d02 1.0",
  "bbob-biobj_f71_i07_d03 1.0",
  "bbob-biobj_f71_i07_d05 1.0",
  "bbob-biobj_f71_i07_d10 1.0",
  "bbob-biobj_f71_i07_d20 1.0",
  "bbob-biobj_f71_i07_d40 1.0",
  "bbob-biobj_f71_i08_d02 1.0",
  "bbob-biobj_f71_i08_d03 1.0",
  "bbob-biobj_f71_i08_d05 1.0",
  "bbob-biobj_f71_i08_d10 1.0",
  "bbob-biobj_f71_i08_d20 1.0",
  "bbob-biobj_f71_i08_d40 1.0",
  "bbob-biobj_f71_i09_d02 1.0",
  "bbob-biobj_f71_i09_d03 1.0",
  "bbob-biobj_f71_i09_d05 1.0",
  "bbob-biobj_f71_i09_d10 1.0",
  "bbob-biobj_f71_i09_d20 1.0",
  "bbob-biobj_f71_i09_d40 1.0",
  "bbob-biobj_f71_i10_d02 1.0",
  "bbob-biobj_f71_i10_d03 1.0",
  "bbob-biobj_f71_i10_d05 1.0",
  "bbob-biobj_f71_i10_d10 1.0",
  "bbob-biobj_f71_i10_d20 1.0",
  "bbob-biobj_f71_i10_d40 1.0",
  "bbob-biobj_f71_i11_d02 1.0",
  "bbob-biobj_f71_i11_d03 1.0",
  "bbob-biobj_f71_i11_d05 1.0",
  "bbob-biobj_f71_i11_d10 1.0",
  "bbob-biobj_f71_i11_d20 1.0",
  "bbob-biobj_f71_i11_d40 1.0",
  "bbob-biobj_f71_i12_d02 1.0",
  "bbob-biobj_f71_i12_d03 1.0",
  "bbob-biobj_f71_i12_d05 1.0",
  "bbob-biobj_f71_i12_d10 1.0",
  "bbob-biobj_f71_i12_d20 1.0",
  "bbob-biobj_f71_i12_d40 1.0",
  "bbob-biobj_f71_i13_d02 1.0",
  "bbob-biobj_f71_i13_d03 1.0",
  "bbob-biobj_f71_i13_d05 1.0",
  "bbob-biobj_f71_i13_d10 1.0",
  "bbob-biobj_f71_i13_d20 1.0",
  "bbob-biobj_f71_i13_d40 1.0",
  "bbob-biobj_f71_i14_d02 1.0",
  "bbob-biobj_f71_i14_d03 1.0",
  "bbob-biobj_f71_i14_d05 1.0",
  "bbob-biobj_f71_i14_d10 1.0",
  "bbob-biobj_f71_i14_d20 1.0",
  "bbob-biobj_f71_i14_d40 1.0",
  "bbob-biobj_f71_i15_d02 1.0",
  "bbob-biobj_f71_i15_d03 1.0",
  "bbob-biobj_f71_i15_d05 1.0",
  "bbob-biobj_f71_i15_d10 1.0",
  "bbob-biobj_f71_i15_d20 1.0",
  "bbob-biobj_f71_i15_d40 1.0",
  "bbob-biobj_f72_i01_d02 1.0",
  "bbob-biobj_f72_i01_d03 1.0",
  "bbob-biobj_f72_i01_d05 1.0",
  "bbob-biobj_f72_i01_d10 1.0",
  "bbob-biobj_f72_i01_d20 1.0",
  "bbob-biobj_f72_i01_d40 1.0",
  "bbob-biobj_f72_i02_d02 1.0",
  "bbob-biobj_f72_i02_d03 1.0",
  "bbob-biobj_f72_i02_d05 1.0",
  "bbob-biobj_f72_i02_d10 1.0",
  "bbob-biobj_f72_i02_d20 1.0",
  "bbob-biobj_f72_i02_d40 1.0",
  "bbob-biobj_f72_i03_d02 1.0",
  "bbob-biobj_f72_i03_d03 1.0",
  "bbob-biobj_f72_i03_d05 1.0",
  "bbob-biobj_f72_i03_d10 1.0",
  "bbob-biobj_f72_i03_d20 1.0",
  "bbob-biobj_f72_i03_d40 1.0",
  "bbob-biobj_f72_i04_d02 1.0",
  "bbob-biobj_f72_i04_d03 1.0",
  "bbob-biobj_f72_i04_d05 1.0",
  "bbob-biobj_f72_i04_d10 1.0",
  "bbob-biobj_f72_i04_d20 1.0",
  "bbob-biobj_f72_i04_d40 1.0",
  "bbob-biobj_f72_i05_d02 1.0",
  "bbob-biobj_f72_i05_d03 1.0",
  "bbob-biobj_f72_i05_d05 1.0",
  "bbob-biobj_f72_i05_d10 1.0",
  "bbob-biobj_f72_i05_d20 1.0",
  "bbob-biobj_f72_i05_d40 1.0",
  "bbob-biobj_f72_i06_d02 1.0",
  "bbob-biobj_f72_i06_d03 1.0",
  "bbob-biobj_f72_i06_d05 1.0",
  "bbob-biobj_f72_i06_d10 1.0",
  "bbob-biobj_f72_i06_d20 1.0",
  "bbob-biobj_f72_i06_d40 1.0",
  "bbob-biobj_f72_i07_d02 1.0",
  "bbob-biobj_f72_i07_d03 1.0",
  "bbob-biobj_f72_i07_d05 1.0",
  "bbob-biobj_f72_i07_d10 1.0",
  "bbob-biobj_f72_i07_d20 1.0",
  "bbob-biobj_f72_i07_d40 1.0",
  "bbob-biobj_f72_i08_d02 1.0",
  "bbob-biobj_f72_i08_d03 1.0",
  "bbob-biobj_f72_i08_d05 1.0",
  "bbob-biobj_f72_i08_d10 1.0",
  "bbob-biobj_f72_i08_d20 1.0",
  "bbob-biobj_f72_i08_d40 1.0",
  "bbob-biobj_f72_i09_d02 1.0",
  "bbob-biobj_f72_i09_d03 1.0",
  "bbob-biobj_f72_i09_d05 1.0",
  "bbob-biobj_f72_i09_d10 1.0",
  "bbob-biobj_f72_i09_d20 1.0",
  "bbob-biobj_f72_i09_d40 1.0",
  "bbob-biobj_f72_i10_d02 1.0",
  "bbob-biobj_f72_i10_d03 1.0",
  "bbob-biobj_f72_i10_d05 1.0",
  "bbob-biobj_f72_i10_d10 1.0",
  "bbob-biobj_f72_i10_d20 1.0",
  "bbob-biobj_f72_i10_d40 1.0",
  "bbob-biobj_f72_i11_d02 1.0",
  "bbob-biobj_f72_i11_d03 1.0",
  "bbob-biobj_f72_i11_d05 1.0",
  "bbob-biobj_f72_i11_d10 1.0",
  "bbob-biobj_f72_i11_d20 1.0",
  "bbob-biobj_f72_i11_d40 1.0",
  "bbob-biobj_f72_i12_d02 1.0",
  "bbob-biobj_f72_i12_d03 1.0",
  "bbob-biobj_f72_i12_d05 1.0",
  "bbob-biobj_f72_i12_d10 1.0",
  "bbob-biobj_f72_i12_d20 1.0",
  "bbob-biobj_f72_i12_d40 1.0",
  "bbob-biobj_f72_i13_d02 1.0",
  "bbob-biobj_f72_i13_d03 1.0",
  "bbob-biobj_f72_i13_d05 1.0",
  "bbob-biobj_f72_i13_d10 1.0",
  "bbob-biobj_f72_i13_d20 1.0",
  "bbob-biobj_f72_i13_d40 1.0",
  "bbob-biobj_f72_i14_d02 1.0",
  "bbob-biobj_f72_i14_d03 1.0",
  "bbob-biobj_f72_i14_d05 1.0",
  "bbob-biobj_f72_i14_d10 1.0",
  "bbob-biobj_f72_i14_d20 1.0",
  "bbob-biobj_f72_i14_d40 1.0",
  "bbob-biobj_f72_i15_d02 1.0",
  "bbob-biobj_f72_i15_d03 1.0",
  "bbob-biobj_f72_i15_d05 1.0",
  "bbob-biobj_f72_i15_d10 1.0",
  "bbob-biobj_f72_i15_d20 1.0",
  "bbob-biobj_f72_i15_d40 1.0",
  "bbob-biobj_f73_i01_d02 1.0",
  "bbob-biobj_f73_i01_d03 1.0",
  "bbob-biobj_f73_i01_d05 1.0",
  "bbob-biobj_f73_i01_d10 1.0",
  "bbob-biobj_f73_i01_d20 1.0",
  "bbob-biobj_f73_i01_d40 1.0",
  "bbob-biobj_f73_i02_d02 1.0",
  "bbob-biobj_f73_i02_d03 1.0",
  "bbob-biobj_f73_i02_d05 1.0",
  "bbob-biobj_f73_i02_d10 1.0",
  "bbob-biobj_f73_i02_d20 1.0",
  "bbob-biobj_f73_i02_d40 1.0",
  "bbob-biobj_f73_i03_d02 1.0",
  "bbob-biobj_f73_i03_d03 1.0",
  "bbob-biobj_f73_i03_d05 1.0",
  "bbob-biobj_f73_i03_d10 1.0",
  "bbob-biobj_f73_i03_d20 1.0",
  "bbob-biobj_f73_i03_d40 1.0",
  "bbob-biobj_f73_i04_d02 1.0",
  "bbob-biobj_f73_i04_d03 1.0",
  "bbob-biobj_f73_i04_d05 1.0",
  "bbob-biobj_f73_i04_d10 1.0",
  "bbob-biobj_f73_i04_d20 1.0",
  "bbob-biobj_f73_i04_d40 1.0",
  "bbob-biobj_f73_i05_d02 1.0",
  "bbob-biobj_f73_i05_d03 1.0",
  "bbob-biobj_f73_i05_d05 1.0",
  "bbob-biobj_f73_i05_d10 1.0",
  "bbob-biobj_f73_i05_d20 1.0",
  "bbob-biobj_f73_i05_d40 1.0",
  "bbob-biobj_f73_i06_d02 1.0",
  "bbob-biobj_f73_i06_d03 1.0",
  "bbob-biobj_f73_i06_d05 1.0",
  "bbob-biobj_f73_i06_d10 1.0",
  "bbob-biobj_f73_i06_d20 1.0",
  "bbob-biobj_f73_i06_d40 1.0",
  "bbob-biobj_f73_i07_d02 1.0",
  "bbob-biobj_f73_i07_d03 1.0",
  "bbob-biobj_f73_i07_d05 1.0",
  "bbob-biobj_f73_i07_d10 1.0",
  "bbob-biobj_f73_i07_d20 1.0",
  "bbob-biobj_f73_i07_d40 1.0",
  "bbob-biobj_f73_i08_d02 1.0",
  "bbob-biobj_f73_i08_d03 1.0",
  "bbob-biobj_f73_i08_d05 1.0",
  "bbob-biobj_f73_i08_d10 1.0",
  "bbob-biobj_f73_i08_d20 1.0",
  "bbob-biobj_f73_i08_d40 1.0",
  "bbob-biobj_f73_i09_d02 1.0",
  "bbob-biobj_f73_i09_d03 1.0",
  "bbob-biobj_f73_i09_d05 1.0",
  "bbob-biobj_f73_i09_d10 1.0",
  "bbob-biobj_f73_i09_d20 1.0",
  "bbob-biobj_f73_i09_d40 1.0",
  "bbob-biobj_f73_i10_d02 1.0",
  "bbob-biobj_f73_i10_d03 1.0",
  "bbob-biobj_f73_i10_d05 1.0",
  "bbob-biobj_f73_i10_d10 1.0",
  "bbob-biobj_f73_i10_d20 1.0",
  "bbob-biobj_f73_i10_d40 1.0",
  "bbob-biobj_f73_i11_d02 1.0",
  "bbob-biobj_f73_i11_d03 1.0",
  "bbob-biobj_f73_i11_d05 1.0",
  "bbob-biobj_f73_i11_d10 1.0",
  "bbob-biobj_f73_i11_d20 1.0",
  "bbob-biobj_f73_i11_d40 1.0",
  "bbob-biobj_f73_i12_d02 1.0",
  "bbob-biobj_f73_i12_d03 1.0",
  "bbob-biobj_f73_i12_d05 1.0",
  "bbob-biobj_f73_i12_d10 1.0",
  "bbob-biobj_f73_i12_d20 1.0",
  "bbob-biobj_f73_i12_d40 1.0",
  "bbob-biobj_f73_i13_d02 1.0",
  "bbob-biobj_f73_i13_d03 1.0",
  "bbob-biobj_f73_i13_d05 1.0",
  "bbob-biobj_f73_i13_d10 1.0",
  "bbob-biobj_f73_i13_d20 1.0",
  "bbob-biobj_f73_i13_d40 1.0",
  "bbob-biobj_f73_i14_d02 1.0",
  "bbob-biobj_f73_i14_d03 1.0",
  "bbob-biobj_f73_i14_d05 1.0",
  "bbob-biobj_f73_i14_d10 1.0",
  "bbob-biobj_f73_i14_d20 1.0",
  "bbob-biobj_f73_i14_d40 1.0",
  "bbob-biobj_f73_i15_d02 1.0",
  "bbob-biobj_f73_i15_d03 1.0",
  "bbob-biobj_f73_i15_d05 1.0",
  "bbob-biobj_f73_i15_d10 1.0",
  "bbob-biobj_f73_i15_d20 1.0",
  "bbob-biobj_f73_i15_d40 1.0",
  "bbob-biobj_f74_i01_d02 1.0",
  "bbob-biobj_f74_i01_d03 1.0",
  "bbob-biobj_f74_i01_d05 1.0",
  "bbob-biobj_f74_i01_d10 1.0",
  "bbob-biobj_f74_i01_d20 1.0",
  "bbob-biobj_f74_i01_d40 1.0",
  "bbob-biobj_f74_i02_d02 1.0",
  "bbob-biobj_f74_i02_d03 1.0",
  "bbob-biobj_f74_i02_d05 1.0",
  "bbob-biobj_f74_i02_d10 1.0",
  "bbob-biobj_f74_i02_d20 1.0",
  "bbob-biobj_f74_i02_d40 1.0",
  "bbob-biobj_f74_i03_d02 1.0",
  "bbob-biobj_f74_i03_d03 1.0",
  "bbob-biobj_f74_i03_d05 1.0",
  "bbob-biobj_f74_i03_d10 1.0",
  "bbob-biobj_f74_i03_d20 1.0",
  "bbob-biobj_f74_i03_d40 1.0",
  "bbob-biobj_f74_i04_d02 1.0",
  "bbob-biobj_f74_i04_d03 1.0",
  "bbob-biobj_f74_i04_d05 1.0",
  "bbob-biobj_f74_i04_d10 1.0",
  "bbob-biobj_f74_i04_d20 1.0",
  "bbob-biobj_f74_i04_d40 1.0",
  "bbob-biobj_f74_i05_d02 1.0",
  "bbob-biobj_f74_i05_d03 1.0",
  "bbob-biobj_f74_i05_d05 1.0",
  "bbob-biobj_f74_i05_d10 1.0",
  "bbob-biobj_f74_i05_d20 1.0",
  "bbob-biobj_f74_i05_d40 1.0",
  "bbob-biobj_f74_i06_d02 1.0",
  "bbob-biobj_f74_i06_d03 1.0",
  "bbob-biobj_f74_i06_d05 1.0",
  "bbob-biobj_f74_i06_d10 1.0",
  "bbob-biobj_f74_i06_d20 1.0",
  "bbob-biobj_f74_i06_d40 1.0",
  "bbob-biobj_f74_i07_d02 1.0",
  "bbob-biobj_f74_i07_d03 1.0",
  "bbob-biobj_f74_i07_d05 1.0",
  "bbob-biobj_f74_i07_d10 1.0",
  "bbob-biobj_f74_i07_d20 1.0",
  "bbob-biobj_f74_i07_d40 1.0",
  "bbob-biobj_f74_i08_d02 1.0",
  "bbob-biobj_f74_i08_d03 1.0",
  "bbob-biobj_f74_i08_d05 1.0",
  "bbob-biobj_f74_i08_d10 1.0",
  "bbob-biobj_f74_i08_d20 1.0",
  "bbob-biobj_f74_i08_d40 1.0",
  "bbob-biobj_f74_i09_d02 1.0",
  "bbob-biobj_f74_i09_d03 1.0",
  "bbob-biobj_f74_i09_d05 1.0",
  "bbob-biobj_f74_i09_d10 1.0",
  "bbob-biobj_f74_i09_d20 1.0",
  "bbob-biobj_f74_i09_d40 1.0",
  "bbob-biobj_f74_i10_d02 1.0",
  "bbob-biobj_f74_i10_d03 1.0",
  "bbob-biobj_f74_i10_d05 1.0",
  "bbob-biobj_f74_i10_d10 1.0",
  "bbob-biobj_f74_i10_d20 1.0",
  "bbob-biobj_f74_i10_d40 1.0",
  "bbob-biobj_f74_i11_d02 1.0",
  "bbob-biobj_f74_i11_d03 1.0",
  "bbob-biobj_f74_i11_d05 1.0",
  "bbob-biobj_f74_i11_d10 1.0",
  "bbob-biobj_f74_i11_d20 1.0",
  "bbob-biobj_f74_i11_d40 1.0",
  "bbob-biobj_f74_i12_d02 1.0",
  "bbob-biobj_f74_i12_d03 1.0",
  "bbob-biobj_f74_i12_d05 1.0",
  "bbob-biobj_f74_i12_d10 1.0",
  "bbob-biobj_f74_i12_d20 1.0",
  "bbob-biobj_f74_i12_d40 1.0",
  "bbob-biobj_f74_i13_d02 1.0",
  "bbob-biobj_f74_i13_d03 1.0",
  "bbob-biobj_f74_i13_d05 1.0",
  "bbob-biobj_f74_i13_d10 1.0",
  "bbob-biobj_f74_i13_d20 1.0",
  "bbob-biobj_f74_i13_d40 1.0",
  "bbob-biobj_f74_i14_d02 1.0",
  "bbob-biobj_f74_i14_d03 1.0",
  "bbob-biobj_f74_i14_d05 1.0",
  "bbob-biobj_f74_i14_d10 1.0",
  "bbob-biobj_f74_i14_d20 1.0",
  "bbob-biobj_f74_i14_d40 1.0",
  "bbob-biobj_f74_i15_d02 1.0",
  "bbob-biobj_f74_i15_d03 1.0",
  "bbob-biobj_f74_i15_d05 1.0",
  "bbob-biobj_f74_i15_d10 1.0",
  "bbob-biobj_f74_i15_d20 1.0",
  "bbob-biobj_f74_i15_d40 1.0",
  "bbob-biobj_f75_i01_d02 1.0",
  "bbob-biobj_f75_i01_d03 1.0",
  "bbob-biobj_f75_i01_d05 1.0",
  "bbob-biobj_f75_i01_d10 1.0",
  "bbob-biobj_f75_i01_d20 1.0",
  "bbob-biobj_f75_i01_d40 1.0",
  "bbob-biobj_f75_i02_d02 1.0",
  "bbob-biobj_f75_i02_d03 1.0",
  "bbob-biobj_f75_i02_d05 1.0",
  "bbob-biobj_f75_i02_d10 1.0",
  "bbob-biobj_f75_i02_d20 1.0",
  "bbob-biobj_f75_i02_d40 1.0",
  "bbob-biobj_f75_i03_d02 1.0",
  "bbob-biobj_f75_i03_d03 1.0",
  "bbob-biobj_f75_i03_d05 1.0",
  "bbob-biobj_f75_i03_d10 1.0",
  "bbob-biobj_f75_i03_d20 1.0",
  "bbob-biobj_f75_i03_d40 1.0",
  "bbob-biobj_f75_i04_d02 1.0",
  "bbob-biobj_f75_i04_d03 1.0",
  "bbob-biobj_f75_i04_d05 1.0",
  "bbob-biobj_f75_i04_d10 1.0",
  "bbob-biobj_f75_i04_d20 1.0",
  "bbob-biobj_f75_i04_d40 1.0",
  "bbob-biobj_f75_i05_d02 1.0",
  "bbob-biobj_f75_i05_d03 1.0",
  "bbob-biobj_f75_i05_d05 1.0",
  "bbob-biobj_f75_i05_d10 1.0",
  "bbob-biobj_f75_i05_d20 1.0",
  "bbob-biobj_f75_i05_d40 1.0",
  "bbob-biobj_f75_i06_d02 1.0",
  "bbob-biobj_f75_i06_d03 1.0",
  "bbob-biobj_f75_i06_d05 1.0",
  "bbob-biobj_f75_i06_d10 1.0",
  "bbob-biobj_f75_i06_d20 1.0",
  "bbob-biobj_f75_i06_d40 1.0",
  "bbob-biobj_f75_i07_d02 1.0",
  "bbob-biobj_f75_i07_d03 1.0",
  "bbob-biobj_f75_i07_d05 1.0",
  "bbob-biobj_f75_i07_d10 1.0",
  "bbob-biobj_f75_i07_d20 1.0",
  "bbob-biobj_f75_i07_d40 1.0",
  "bbob-biobj_f75_i08_d02 1.0",
  "bbob-biobj_f75_i08_d03 1.0",
  "bbob-biobj_f75_i08_d05 1.0",
  "bbob-biobj_f75_i08_d10 1.0",
  "bbob-biobj_f75_i08_d20 1.0",
  "bbob-biobj_f75_i08_d40 1.0",
  "bbob-biobj_f75_i09_d02 1.0",
  "bbob-biobj_f75_i09_d03 1.0",
  "bbob-biobj_f75_i09_d05 1.0",
  "bbob-biobj_f75_i09_d10 1.0",
  "bbob-biobj_f75_i09_d20 1.0",
  "bbob-biobj_f75_i09_d40 1.0",
  "bbob-biobj_f75_i10_d02 1.0",
  "bbob-biobj_f75_i10_d03 1.0",
  "bbob-biobj_f75_i10_d05 1.0",
  "bbob-biobj_f75_i10_d10 1.0",
  "bbob-biobj_f75_i10_d20 1.0",
  "bbob-biobj_f75_i10_d40 1.0",
  "bbob-biobj_f75_i11_d02 1.0",
  "bbob-biobj_f75_i11_d03 1.0",
  "bbob-biobj_f75_i11_d05 1.0",
  "bbob-biobj_f75_i11_d10 1.0",
  "bbob-biobj_f75_i11_d20 1.0",
  "bbob-biobj_f75_i11_d40 1.0",
  "bbob-biobj_f75_i12_d02 1.0",
  "bbob-biobj_f75_i12_d03 1.0",
  "bbob-biobj_f75_i12_d05 1.0",
  "bbob-biobj_f75_i12_d10 1.0",
  "bbob-biobj_f75_i12_d20 1.0",
  "bbob-biobj_f75_i12_d40 1.0",
  "bbob-biobj_f75_i13_d02 1.0",
  "bbob-biobj_f75_i13_d03 1.0",
  "bbob-biobj_f75_i13_d05 1.0",
  "bbob-biobj_f75_i13_d10 1.0",
  "bbob-biobj_f75_i13_d20 1.0",
  "bbob-biobj_f75_i13_d40 1.0",
  "bbob-biobj_f75_i14_d02 1.0",
  "bbob-biobj_f75_i14_d03 1.0",
  "bbob-biobj_f75_i14_d05 1.0",
  "bbob-biobj_f75_i14_d10 1.0",
  "bbob-biobj_f75_i14_d20 1.0",
  "bbob-biobj_f75_i14_d40 1.0",
  "bbob-biobj_f75_i15_d02 1.0",
  "bbob-biobj_f75_i15_d03 1.0",
  "bbob-biobj_f75_i15_d05 1.0",
  "bbob-biobj_f75_i15_d10 1.0",
  "bbob-biobj_f75_i15_d20 1.0",
  "bbob-biobj_f75_i15_d40 1.0",
  "bbob-biobj_f76_i01_d02 1.0",
  "bbob-biobj_f76_i01_d03 1.0",
  "bbob-biobj_f76_i01_d05 1.0",
  "bbob-biobj_f76_i01_d10 1.0",
  "bbob-biobj_f76_i01_d20 1.0",
  "bbob-biobj_f76_i01_d40 1.0",
  "bbob-biobj_f76_i02_d02 1.0",
  "bbob-biobj_f76_i02_d03 1.0",
  "bbob-biobj_f76_i02_d05 1.0",
  "bbob-biobj_f76_i02_d10 1.0",
  "bbob-biobj_f76_i02_d20 1.0",
  "bbob-biobj_f76_i02_d40 1.0",
  "bbob-biobj_f76_i03_d02 1.0",
  "bbob-biobj_f76_i03_d03 1.0",
  "bbob-biobj_f76_i03_d05 1.0",
  "bbob-biobj_f76_i03_d10 1.0",
  "bbob-biobj_f76_i03_d20 1.0",
  "bbob-biobj_f76_i03_d40 1.0",
  "bbob-biobj_f76_i04_d02 1.0",
  "bbob-biobj_f76_i04_d03 1.0",
  "bbob-biobj_f76_i04_d05 1.0",
  "bbob-biobj_f76_i04_d10 1.0",
  "bbob-biobj_f76_i04_d20 1.0",
  "bbob-biobj_f76_i04_d40 1.0",
  "bbob-biobj_f76_i05_d02 1.0",
  "bbob-biobj_f76_i05_d03 1.0",
  "bbob-biobj_f76_i05_d05 1.0",
  "bbob-biobj_f76_i05_d10 1.0",
  "bbob-biobj_f76_i05_d20 1.0",
  "bbob-biobj_f76_i05_d40 1.0",
  "bbob-biobj_f76_i06_d02 1.0",
  "bbob-biobj_f76_i06_d03 1.0",
  "bbob-biobj_f76_i06_d05 1.0",
  "bbob-biobj_f76_i06_d10 1.0",
  "bbob-biobj_f76_i06_d20 1.0",
  "bbob-biobj_f76_i06_d40 1.0",
  "bbob-biobj_f76_i07_d02 1.0",
  "bbob-biobj_f76_i07_d03 1.0",
  "bbob-biobj_f76_i07_d05 1.0",
  "bbob-biobj_f76_i07_d10 1.0",
  "bbob-biobj_f76_i07_d20 1.0",
  "bbob-biobj_f76_i07_d40 1.0",
  "bbob-biobj_f76_i08_d02 1.0",
  "bbob-biobj_f76_i08_d03 1.0",
  "bbob-biobj_f76_i08_d05 1.0",
  "bbob-biobj_f76_i08_d10 1.0",
  "bbob-biobj_f76_i08_d20 1.0",
  "bbob-biobj_f76_i08_d40 1.0",
  "bbob-biobj_f76_i09_d02 1.0",
  "bbob-biobj_f76_i09_d03 1.0",
  "bbob-biobj_f76_i09_d05 1.0",
  "bbob-biobj_f76_i09_d10 1.0",
  "bbob-biobj_f76_i09_d20 1.0",
  "bbob-biobj_f76_i09_d40 1.0",
  "bbob-biobj_f76_i10_d02 1.0",
  "bbob-biobj_f76_i10_d03 1.0",
  "bbob-biobj_f76_i10_d05 1.0",
  "bbob-biobj_f76_i10_d10 1.0",
  "bbob-biobj_f76_i10_d20 1.0",
  "bbob-biobj_f76_i10_d40 1.0",
  "bbob-biobj_f76_i11_d02 1.0",
  "bbob-biobj_f76_i11_d03 1.0",
  "bbob-biobj_f76_i11_d05 1.0",
  "bbob-biobj_f76_i11_d10 1.0",
  "bbob-biobj_f76_i11_d20 1.0",
  "bbob-biobj_f76_i11_d40 1.0",
  "bbob-biobj_f76_i12_d02 1.0",
  "bbob-biobj_f76_i12_d03 1.0",
  "bbob-biobj_f76_i12_d05 1.0",
  "bbob-biobj_f76_i12_d10 1.0",
  "bbob-biobj_f76_i12_d20 1.0",
  "bbob-biobj_f76_i12_d40 1.0",
  "bbob-biobj_f76_i13_d02 1.0",
  "bbob-biobj_f76_i13_d03 1.0",
  "bbob-biobj_f76_i13_d05 1.0",
  "bbob-biobj_f76_i13_d10 1.0",
  "bbob-biobj_f76_i13_d20 1.0",
  "bbob-biobj_f76_i13_d40 1.0",
  "bbob-biobj_f76_i14_d02 1.0",
  "bbob-biobj_f76_i14_d03 1.0",
  "bbob-biobj_f76_i14_d05 1.0",
  "bbob-biobj_f76_i14_d10 1.0",
  "bbob-biobj_f76_i14_d20 1.0",
  "bbob-biobj_f76_i14_d40 1.0",
  "bbob-biobj_f76_i15_d02 1.0",
  "bbob-biobj_f76_i15_d03 1.0",
  "bbob-biobj_f76_i15_d05 1.0",
  "bbob-biobj_f76_i15_d10 1.0",
  "bbob-biobj_f76_i15_d20 1.0",
  "bbob-biobj_f76_i15_d40 1.0",
  "bbob-biobj_f77_i01_d02 1.0",
  "bbob-biobj_f77_i01_d03 1.0",
  "bbob-biobj_f77_i01_d05 1.0",
  "bbob-biobj_f77_i01_d10 1.0",
  "bbob-biobj_f77_i01_d20 1.0",
  "bbob-biobj_f77_i01_d40 1.0",
  "bbob-biobj_f77_i02_d02 1.0",
  "bbob-biobj_f77_i02_d03 1.0",
  "bbob-biobj_f77_i02_d05 1.0",
  "bbob-biobj_f77_i02_d10 1.0",
  "bbob-biobj_f77_i02_d20 1.0",
  "bbob-biobj_f77_i02_d40 1.0",
  "bbob-biobj_f77_i03_d02 1.0",
  "bbob-biobj_f77_i03_d03 1.0",
  "bbob-biobj_f77_i03_d05 1.0",
  "bbob-biobj_f77_i03_d10 1.0",
  "bbob-biobj_f77_i03_d20 1.0",
  "bbob-biobj_f77_i03_d40 1.0",
  "bbob-biobj_f77_i04_d02 1.0",
  "bbob-biobj_f77_i04_d03 1.0",
  "bbob-biobj_f77_i04_d05 1.0",
  "bbob-biobj_f77_i04_d10 1.0",
  "bbob-biobj_f77_i04_d20 1.0",
  "bbob-biobj_f77_i04_d40 1.0",
  "bbob-biobj_f77_i05_d02 1.0",
  "bbob-biobj_f77_i05_d03 1.0",
  "bbob-biobj_f77_i05_d05 1.0",
  "bbob-biobj_f77_i05_d10 1.0",
  "bbob-biobj_f77_i05_d20 1.0",
  "bbob-biobj_f77_i05_d40 1.0",
  "bbob-biobj_f77_i06_d02 1.0",
  "bbob-biobj_f77_i06_d03 1.0",
  "bbob-biobj_f77_i06_d05 1.0",
  "bbob-biobj_f77_i06_d10 1.0",
  "bbob-biobj_f77_i06_d20 1.0",
  "bbob-biobj_f77_i06_d40 1.0",
  "bbob-biobj_f77_i07_d02 1.0",
  "bbob-biobj_f77_i07_d03 1.0",
  "bbob-biobj_f77_i07_d05 1.0",
  "bbob-biobj_f77_i07_d10 1.0",
  "bbob-biobj_f77_i07_d20 1.0",
  "bbob-biobj_f77_i07_d40 1.0",
  "bbob-biobj_f77_i08_d02 1.0",
  "bbob-biobj_f77_i08_d03 1.0",
  "bbob-biobj_f77_i08_d05 1.0",
  "bbob-biobj_f77_i08_d10 1.0",
  "bbob-biobj_f77_i08_d20 1.0",
  "bbob-biobj_f77_i08_d40 1.0",
  "bbob-biobj_f77_i09_d02 1.0",
  "bbob-biobj_f77_i09_d03 1.0",
  "bbob-biobj_f77_i09_d05 1.0",
  "bbob-biobj_f77_i09_d10 1.0",
  "bbob-biobj_f77_i09_d20 1.0",
  "bbob-biobj_f77_i09_d40 1.0",
  "bbob-biobj_f77_i10_d02 1.0",
  "bbob-biobj_f77_i10_d03 1.0",
  "bbob-biobj_f77_i10_d05 1.0",
  "bbob-biobj_f77_i10_d10 1.0",
  "bbob-biobj_f77_i10_d20 1.0",
  "bbob-biobj_f77_i10_d40 1.0",
  "bbob-biobj_f77_i11_d02 1.0",
  "bbob-biobj_f77_i11_d03 1.0",
  "bbob-biobj_f77_i11_d05 1.0",
  "bbob-biobj_f77_i11_d10 1.0",
  "bbob-biobj_f77_i11_d20 1.0",
  "bbob-biobj_f77_i11_d40 1.0",
  "bbob-biobj_f77_i12_d02 1.0",
  "bbob-biobj_f77_i12_d03 1.0",
  "bbob-biobj_f77_i12_d05 1.0",
  "bbob-biobj_f77_i12_d10 1.0",
  "bbob-biobj_f77_i12_d20 1.0",
  "bbob-biobj_f77_i12_d40 1.0",
  "bbob-biobj_f77_i13_d02 1.0",
  "bbob-biobj_f77_i13_d03 1.0",
  "bbob-biobj_f77_i13_d05 1.0",
  "bbob-biobj_f77_i13_d10 1.0",
  "bbob-biobj_f77_i13_d20 1.0",
  "bbob-biobj_f77_i13_d40 1.0",
  "bbob-biobj_f77_i14_d02 1.0",
  "bbob-biobj_f77_i14_d03 1.0",
  "bbob-biobj_f77_i14_d05 1.0",
  "bbob-biobj_f77_i14_d10 1.0",
  "bbob-biobj_f77_i14_d20 1.0",
  "bbob-biobj_f77_i14_d40 1.0",
  "bbob-biobj_f77_i15_d02 1.0",
  "bbob-biobj_f77_i15_d03 1.0",
  "bbob-biobj_f77_i15_d05 1.0",
  "bbob-biobj_f77_i15_d10 1.0",
  "bbob-biobj_f77_i15_d20 1.0",
  "bbob-biobj_f77_i15_d40 1.0",
  "bbob-biobj_f78_i01_d02 1.0",
  "bbob-biobj_f78_i01_d03 1.0",
  "bbob-biobj_f78_i01_d05 1.0",
  "bbob-biobj_f78_i01_d10 1.0",
  "bbob-biobj_f78_i01_d20 1.0",
  "bbob-biobj_f78_i01_d40 1.0",
  "bbob-biobj_f78_i02_d02 1.0",
  "bbob-biobj_f78_i02_d03 1.0",
  "bbob-biobj_f78_i02_d05 1.0",
  "bbob-biobj_f78_i02_d10 1.0",
  "bbob-biobj_f78_i02_d20 1.0",
  "bbob-biobj_f78_i02_d40 1.0",
  "bbob-biobj_f78_i03_d02 1.0",
  "bbob-biobj_f78_i03_d03 1.0",
  "bbob-biobj_f78_i03_d05 1.0",
  "bbob-biobj_f78_i03_d10 1.0",
  "bbob-biobj_f78_i03_d20 1.0",
  "bbob-biobj_f78_i03_d40 1.0",
  "bbob-biobj_f78_i04_d02 1.0",
  "bbob-biobj_f78_i04_d03 1.0",
  "bbob-biobj_f78_i04_d05 1.0",
  "bbob-biobj_f78_i04_d10 1.0",
  "bbob-biobj_f78_i04_d20 1.0",
  "bbob-biobj_f78_i04_d40 1.0",
  "bbob-biobj_f78_i05_d02 1.0",
  "bbob-biobj_f78_i05_d03 1.0",
  "bbob-biobj_f78_i05_d05 1.0",
  "bbob-biobj_f78_i05_d10 1.0",
  "bbob-biobj_f78_i05_d20 1.0",
  "bbob-biobj_f78_i05_d40 1.0",
  "bbob-biobj_f78_i06_d02 1.0",
  "bbob-biobj_f78_i06_d03 1.0",
  "bbob-biobj_f78_i06_d05 1.0",
  "bbob-biobj_f78_i06_d10 1.0",
  "bbob-biobj_f78_i06_d20 1.0",
  "bbob-biobj_f78_i06_d40 1.0",
  "bbob-biobj_f78_i07_d02 1.0",
  "bbob-biobj_f78_i07_d03 1.0",
  "bbob-biobj_f78_i07_d05 1.0",
  "bbob-biobj_f78_i07_d10 1.0",
  "bbob-biobj_f78_i07_d20 1.0",
  "bbob-biobj_f78_i07_d40 1.0",
  "bbob-biobj_f78_i08_d02 1.0",
  "bbob-biobj_f78_i08_d03 1.0",
  "bbob-biobj_f78_i08_d05 1.0",
  "bbob-biobj_f78_i08_d10 1.0",
  "bbob-biobj_f78_i08_d20 1.0",
  "bbob-biobj_f78_i08_d40 1.0",
  "bbob-biobj_f78_i09_d02 1.0",
  "bbob-biobj_f78_i09_d03 1.0",
  "bbob-biobj_f78_i09_d05 1.0",
  "bbob-biobj_f78_i09_d10 1.0",
  "bbob-biobj_f78_i09_d20 1.0",
  "bbob-biobj_f78_i09_d40 1.0",
  "bbob-biobj_f78_i10_d02 1.0",
  "bbob-biobj_f78_i10_d03 1.0",
  "bbob-biobj_f78_i10_d05 1.0",
  "bbob-biobj_f78_i10_d10 1.0",
  "bbob-biobj_f78_i10_d20 1.0",
  "bbob-biobj_f78_i10_d40 1.0",
  "bbob-biobj_f78_i11_d02 1.0",
  "bbob-biobj_f78_i11_d03 1.0",
  "bbob-biobj_f78_i11_d05 1.0",
  "bbob-biobj_f78_i11_d10 1.0",
  "bbob-biobj_f78_i11_d20 1.0",
  "bbob-biobj_f78_i11_d40 1.0",
  "bbob-biobj_f78_i12_d02 1.0",
  "bbob-biobj_f78_i12_d03 1.0",
  "bbob-biobj_f78_i12_d05 1.0",
  "bbob-biobj_f78_i12_d10 1.0",
  "bbob-biobj_f78_i12_d20 1.0",
  "bbob-biobj_f78_i12_d40 1.0",
  "bbob-biobj_f78_i13_d02 1.0",
  "bbob-biobj_f78_i13_d03 1.0",
  "bbob-biobj_f78_i13_d05 1.0",
  "bbob-biobj_f78_i13_d10 1.0",
  "bbob-biobj_f78_i13_d20 1.0",
  "bbob-biobj_f78_i13_d40 1.0",
  "bbob-biobj_f78_i14_d02 1.0",
  "bbob-biobj_f78_i14_d03 1.0",
  "bbob-biobj_f78_i14_d05 1.0",
  "bbob-biobj_f78_i14_d10 1.0",
  "bbob-biobj_f78_i14_d20 1.0",
  "bbob-biobj_f78_i14_d40 1.0",
  "bbob-biobj_f78_i15_d02 1.0",
  "bbob-biobj_f78_i15_d03 1.0",
  "bbob-biobj_f78_i15_d05 1.0",
  "bbob-biobj_f78_i15_d10 1.0",
  "bbob-biobj_f78_i15_d20 1.0",
  "bbob-biobj_f78_i15_d40 1.0",
  "bbob-biobj_f79_i01_d02 1.0",
  "bbob-biobj_f79_i01_d03 1.0",
  "bbob-biobj_f79_i01_d05 1.0",
  "bbob-biobj_f79_i01_d10 1.0",
  "bbob-biobj_f79_i01_d20 1.0",
  "bbob-biobj_f79_i01_d40 1.0",
  "bbob-biobj_f79_i02_d02 1.0",
  "bbob-biobj_f79_i02_d03 1.0",
  "bbob-biobj_f79_i02_d05 1.0",
  "bbob-biobj_f79_i02_d10 1.0",
  "bbob-biobj_f79_i02_d20 1.0",
  "bbob-biobj_f79_i02_d40 1.0",
  "bbob-biobj_f79_i03_d02 1.0",
  "bbob-biobj_f79_i03_d03 1.0",
  "bbob-biobj_f79_i03_d05 1.0",
  "bbob-biobj_f79_i03_d10 1.0",
  "bbob-biobj_f79_i03_d20 1.0",
  "bbob-biobj_f79_i03_d40 1.0",
  "bbob-biobj_f79_i04_d02 1.0",
  "bbob-biobj_f79_i04_d03 1.0",
  "bbob-biobj_f79_i04_d05 1.0",
  "bbob-biobj_f79_i04_d10 1.0",
  "bbob-biobj_f79_i04_d20 1.0",
  "bbob-biobj_f79_i04_d40 1.0",
  "bbob-biobj_f79_i05_d02 1.0",
  "bbob-biobj_f79_i05_d03 1.0",
  "bbob-biobj_f79_i05_d05 1.0",
  "bbob-biobj_f79_i05_d10 1.0",
  "bbob-biobj_f79_i05_d20 1.0",
  "bbob-biobj_f79_i05_d40 1.0",
  "bbob-biobj_f79_i06_d02 1.0",
  "bbob-biobj_f79_i06_d03 1.0",
  "bbob-biobj_f79_i06_d05 1.0",
  "bbob-biobj_f79_i06_d10 1.0",
  "bbob-biobj_f79_i06_d20 1.0",
  "bbob-biobj_f79_i06_d40 1.0",
  "bbob-biobj_f79_i07_d02 1.0",
  "bbob-biobj_f79_i07_d03 1.0",
  "bbob-biobj_f79_i07_d05 1.0",
  "bbob-biobj_f79_i07_d10 1.0",
  "bbob-biobj_f79_i07_d20 1.0",
  "bbob-biobj_f79_i07_d40 1.0",
  "bbob-biobj_f79_i08_d02 1.0",
  "bbob-biobj_f79_i08_d03 1.0",
  "bbob-biobj_f79_i08_d05 1.0",
  "bbob-biobj_f79_i08_d10 1.0",
  "bbob-biobj_f79_i08_d20 1.0",
  "bbob-biobj_f79_i08_d40 1.0",
  "bbob-biobj_f79_i09_d02 1.0",
  "bbob-biobj_f79_i09_d03 1.0",
  "bbob-biobj_f79_i09_d05 1.0",
  "bbob-biobj_f79_i09_d10 1.0",
  "bbob-biobj_f79_i09_d20 1.0",
  "bbob-biobj_f79_i09_d40 1.0",
  "bbob-biobj_f79_i10_d02 1.0",
  "bbob-biobj_f79_i10_d03 1.0",
  "bbob-biobj_f79_i10_d05 1.0",
  "bbob-biobj_f79_i10_d10 1.0",
  "bbob-biobj_f79_i10_d20 1.0",
  "bbob-biobj_f79_i10_d40 1.0",
  "bbob-biobj_f79_i11_d02 1.0",
  "bbob-biobj_f79_i11_d03 1.0",
  "bbob-biobj_f79_i11_d05 1.0",
  "bbob-biobj_f79_i11_d10 1.0",
  "bbob-biobj_f79_i11_d20 1.0",
  "bbob-biobj_f79_i11_d40 1.0",
  "bbob-biobj_f79_i12_d02 1.0",
  "bbob-biobj_f79_i12_d03 1.0",
  "bbob-biobj_f79_i12_d05 1.0",
  "bbob-biobj_f79_i12_d10 1.0",
  "bbob-biobj_f79_i12_d20 1.0",
  "bbob-biobj_f79_i12_d40 1.0",
  "bbob-biobj_f79_i13_d02 1.0",
  "bbob-biobj_f79_i13_d03 1.0",
  "bbob-biobj_f79_i13_d05 1.0",
  "bbob-biobj_f79_i13_d10 1.0",
  "bbob-biobj_f79_i13_d20 1.0",
  "bbob-biobj_f79_i13_d40 1.0",
  "bbob-biobj_f79_i14_d02 1.0",
  "bbob-biobj_f79_i14_d03 1.0",
  "bbob-biobj_f79_i14_d05 1.0",
  "bbob-biobj_f79_i14_d10 1.0",
  "bbob-biobj_f79_i14_d20 1.0",
  "bbob-biobj_f79_i14_d40 1.0",
  "bbob-biobj_f79_i15_d02 1.0",
  "bbob-biobj_f79_i15_d03 1.0",
  "bbob-biobj_f79_i15_d05 1.0",
  "bbob-biobj_f79_i15_d10 1.0",
  "bbob-biobj_f79_i15_d20 1.0",
  "bbob-biobj_f79_i15_d40 1.0",
  "bbob-biobj_f80_i01_d02 1.0",
  "bbob-biobj_f80_i01_d03 1.0",
  "bbob-biobj_f80_i01_d05 1.0",
  "bbob-biobj_f80_i01_d10 1.0",
  "bbob-biobj_f80_i01_d20 1.0",
  "bbob-biobj_f80_i01_d40 1.0",
  "bbob-biobj_f80_i02_d02 1.0",
  "bbob-biobj_f80_i02_d03 1.0",
  "bbob-biobj_f80_i02_d05 1.0",
  "bbob-biobj_f80_i02_d10 1.0",
  "bbob-biobj_f80_i02_d20 1.0",
  "bbob-biobj_f80_i02_d40 1.0",
  "bbob-biobj_f80_i03_d02 1.0",
  "bbob-biobj_f80_i03_d03 1.0",
  "bbob-biobj_f80_i03_d05 1.0",
  "bbob-biobj_f80_i03_d10 1.0",
  "bbob-biobj_f80_i03_d20 1.0",
  "bbob-biobj_f80_i03_d40 1.0",
  "bbob-biobj_f80_i04_d02 1.0",
  "bbob-biobj_f80_i04_d03 1.0",
  "bbob-biobj_f80_i04_d05 1.0",
  "bbob-biobj_f80_i04_d10 1.0",
  "bbob-biobj_f80_i04_d20 1.0",
  "bbob-biobj_f80_i04_d40 1.0",
  "bbob-biobj_f80_i05_d02 1.0",
  "bbob-biobj_f80_i05_d03 1.0",
  "bbob-biobj_f80_i05_d05 1.0",
  "bbob-biobj_f80_i05_d10 1.0",
  "bbob-biobj_f80_i05_d20 1.0",
  "bbob-biobj_f80_i05_d40 1.0",
  "bbob-biobj_f80_i06_d02 1.0",
  "bbob-biobj_f80_i06_d03 1.0",
  "bbob-biobj_f80_i06_d05 1.0",
  "bbob-biobj_f80_i06_d10 1.0",
  "bbob-biobj_f80_i06_d20 1.0",
  "bbob-biobj_f80_i06_d40 1.0",
  "bbob-biobj_f80_i07_d02 1.0",
  "bbob-biobj_f80_i07_d03 1.0",
  "bbob-biobj_f80_i07_d05 1.0",
  "bbob-biobj_f80_i07_d10 1.0",
  "bbob-biobj_f80_i07_d20 1.0",
  "bbob-biobj_f80_i07_d40 1.0",
  "bbob-biobj_f80_i08_d02 1.0",
  "bbob-biobj_f80_i08_d03 1.0",
  "bbob-biobj_f80_i08_d05 1.0",
  "bbob-biobj_f80_i08_d10 1.0",
  "bbob-biobj_f80_i08_d20 1.0",
  "bbob-biobj_f80_i08_d40 1.0",
  "bbob-biobj_f80_i09_d02 1.0",
  "bbob-biobj_f80_i09_d03 1.0",
  "bbob-biobj_f80_i09_d05 1.0",
  "bbob-biobj_f80_i09_d10 1.0",
  "bbob-biobj_f80_i09_d20 1.0",
  "bbob-biobj_f80_i09_d40 1.0",
  "bbob-biobj_f80_i10_d02 1.0",
  "bbob-biobj_f80_i10_d03 1.0",
  "bbob-biobj_f80_i10_d05 1.0",
  "bbob-biobj_f80_i10_d10 1.0",
  "bbob-biobj_f80_i10_d20 1.0",
  "bbob-biobj_f80_i10_d40 1.0",
  "bbob-biobj_f80_i11_d02 1.0",
  "bbob-biobj_f80_i11_d03 1.0",
  "bbob-biobj_f80_i11_d05 1.0",
  "bbob-biobj_f80_i11_d10 1.0",
  "bbob-biobj_f80_i11_d20 1.0",
  "bbob-biobj_f80_i11_d40 1.0",
  "bbob-biobj_f80_i12_d02 1.0",
  "bbob-biobj_f80_i12_d03 1.0",
  "bbob-biobj_f80_i12_d05 1.0",
  "bbob-biobj_f80_i12_d10 1.0",
  "bbob-biobj_f80_i12_d20 1.0",
  "bbob-biobj_f80_i12_d40 1.0",
  "bbob-biobj_f80_i13_d02 1.0",
  "bbob-biobj_f80_i13_d03 1.0",
  "bbob-biobj_f80_i13_d05 1.0",
  "bbob-biobj_f80_i13_d10 1.0",
  "bbob-biobj_f80_i13_d20 1.0",
  "bbob-biobj_f80_i13_d40 1.0",
  "bbob-biobj_f80_i14_d02 1.0",
  "bbob-biobj_f80_i14_d03 1.0",
  "bbob-biobj_f80_i14_d05 1.0",
  "bbob-biobj_f80_i14_d10 1.0",
  "bbob-biobj_f80_i14_d20 1.0",
  "bbob-biobj_f80_i14_d40 1.0",
  "bbob-biobj_f80_i15_d02 1.0",
  "bbob-biobj_f80_i15_d03 1.0",
  "bbob-biobj_f80_i15_d05 1.0",
  "bbob-biobj_f80_i15_d10 1.0",
  "bbob-biobj_f80_i15_d20 1.0",
  "bbob-biobj_f80_i15_d40 1.0",
  "bbob-biobj_f81_i01_d02 1.0",
  "bbob-biobj_f81_i01_d03 1.0",
  "bbob-biobj_f81_i01_d05 1.0",
  "bbob-biobj_f81_i01_d10 1.0",
  "bbob-biobj_f81_i01_d20 1.0",
  "bbob-biobj_f81_i01_d40 1.0",
  "bbob-biobj_f81_i02_d02 1.0",
  "bbob-biobj_f81_i02_d03 1.0",
  "bbob-biobj_f81_i02_d05 1.0",
  "bbob-biobj_f81_i02_d10 1.0",
  "bbob-biobj_f81_i02_d20 1.0",
  "bbob-biobj_f81_i02_d40 1.0",
  "bbob-biobj_f81_i03_d02 1.0",
  "bbob-biobj_f81_i03_d03 1.0",
  "bbob-biobj_f81_i03_d05 1.0",
  "bbob-biobj_f81_i03_d10 1.0",
  "bbob-biobj_f81_i03_d20 1.0",
  "bbob-biobj_f81_i03_d40 1.0",
  "bbob-biobj_f81_i04_d02 1.0",
  "bbob-biobj_f81_i04_d03 1.0",
  "bbob-biobj_f81_i04_d05 1.0",
  "bbob-biobj_f81_i04_d10 1.0",
  "bbob-biobj_f81_i04_d20 1.0",
  "bbob-biobj_f81_i04_d40 1.0",
  "bbob-biobj_f81_i05_d02 1.0",
  "bbob-biobj_f81_i05_d03 1.0",
  "bbob-biobj_f81_i05_d05 1.0",
  "bbob-biobj_f81_i05_d10 1.0",
  "bbob-biobj_f81_i05_d20 1.0",
  "bbob-biobj_f81_i05_d40 1.0",
  "bbob-biobj_f81_i06_d02 1.0",
  "bbob-biobj_f81_i06_d03 1.0",
  "bbob-biobj_f81_i06_d05 1.0",
  "bbob-biobj_f81_i06_d10 1.0",
  "bbob-biobj_f81_i06_d20 1.0",
  "bbob-biobj_f81_i06_d40 1.0",
  "bbob-biobj_f81_i07_d02 1.0",
  "bbob-biobj_f81_i07_d03 1.0",
  "bbob-biobj_f81_i07_d05 1.0",
  "bbob-biobj_f81_i07_d10 1.0",
  "bbob-biobj_f81_i07_d20 1.0",
  "bbob-biobj_f81_i07_d40 1.0",
  "bbob-biobj_f81_i08_d02 1.0",
  "bbob-biobj_f81_i08_d03 1.0",
  "bbob-biobj_f81_i08_d05 1.0",
  "bbob-biobj_f81_i08_d10 1.0",
  "bbob-biobj_f81_i08_d20 1.0",
  "bbob-biobj_f81_i08_d40 1.0",
  "bbob-biobj_f81_i09_d02 1.0",
  "bbob-biobj_f81_i09_d03 1.0",
  "bbob-biobj_f81_i09_d05 1.0",
  "bbob-biobj_f81_i09_d10 1.0",
  "bbob-biobj_f81_i09_d20 1.0",
  "bbob-biobj_f81_i09_d40 1.0",
  "bbob-biobj_f81_i10_d02 1.0",
  "bbob-biobj_f81_i10_d03 1.0",
  "bbob-biobj_f81_i10_d05 1.0",
  "bbob-biobj_f81_i10_d10 1.0",
  "bbob-biobj_f81_i10_d20 1.0",
  "bbob-biobj_f81_i10_d40 1.0",
  "bbob-biobj_f81_i11_d02 1.0",
  "bbob-biobj_f81_i11_d03 1.0",
  "bbob-biobj_f81_i11_d05 1.0",
  "bbob-biobj_f81_i11_d10 1.0",
  "bbob-biobj_f81_i11_d20 1.0",
  "bbob-biobj_f81_i11_d40 1.0",
  "bbob-biobj_f81_i12_d02 1.0",
  "bbob-biobj_f81_i12_d03 1.0",
  "bbob-biobj_f81_i12_d05 1.0",
  "bbob-biobj_f81_i12_d10 1.0",
  "bbob-biobj_f81_i12_d20 1.0",
  "bbob-biobj_f81_i12_d40 1.0",
  "bbob-biobj_f81_i13_d02 1.0",
  "bbob-biobj_f81_i13_d03 1.0",
  "bbob-biobj_f81_i13_d05 1.0",
  "bbob-biobj_f81_i13_d10 1.0",
  "bbob-biobj_f81_i13_d20 1.0",
  "bbob-biobj_f81_i13_d40 1.0",
  "bbob-biobj_f81_i14_d02 1.0",
  "bbob-biobj_f81_i14_d03 1.0",
  "bbob-biobj_f81_i14_d05 1.0",
  "bbob-biobj_f81_i14_d10 1.0",
  "bbob-biobj_f81_i14_d20 1.0",
  "bbob-biobj_f81_i14_d40 1.0",
  "bbob-biobj_f81_i15_d02 1.0",
  "bbob-biobj_f81_i15_d03 1.0",
  "bbob-biobj_f81_i15_d05 1.0",
  "bbob-biobj_f81_i15_d10 1.0",
  "bbob-biobj_f81_i15_d20 1.0",
  "bbob-biobj_f81_i15_d40 1.0",
  "bbob-biobj_f82_i01_d02 1.0",
  "bbob-biobj_f82_i01_d03 1.0",
  "bbob-biobj_f82_i01_d05 1.0",
  "bbob-biobj_f82_i01_d10 1.0",
  "bbob-biobj_f82_i01_d20 1.0",
  "bbob-biobj_f82_i01_d40 1.0",
  "bbob-biobj_f82_i02_d02 1.0",
  "bbob-biobj_f82_i02_d03 1.0",
  "bbob-biobj_f82_i02_d05 1.0",
  "bbob-biobj_f82_i02_d10 1.0",
  "bbob-biobj_f82_i02_d20 1.0",
  "bbob-biobj_f82_i02_d40 1.0",
  "bbob-biobj_f82_i03_d02 1.0",
  "bbob-biobj_f82_i03_d03 1.0",
  "bbob-biobj_f82_i03_d05 1.0",
  "bbob-biobj_f82_i03_d10 1.0",
  "bbob-biobj_f82_i03_d20 1.0",
  "bbob-biobj_f82_i03_d40 1.0",
  "bbob-biobj_f82_i04_d02 1.0",
  "bbob-biobj_f82_i04_d03 1.0",
  "bbob-biobj_f82_i04_d05 1.0",
  "bbob-biobj_f82_i04_d10 1.0",
  "bbob-biobj_f82_i04_d20 1.0",
  "bbob-biobj_f82_i04_d40 1.0",
  "bbob-biobj_f82_i05_d02 1.0",
  "bbob-biobj_f82_i05_d03 1.0",
  "bbob-biobj_f82_i05_d05 1.0",
  "bbob-biobj_f82_i05_d10 1.0",
  "bbob-biobj_f82_i05_d20 1.0",
  "bbob-biobj_f82_i05_d40 1.0",
  "bbob-biobj_f82_i06_d02 1.0",
  "bbob-biobj_f82_i06_d03 1.0",
  "bbob-biobj_f82_i06_d05 1.0",
  "bbob-biobj_f82_i06_d10 1.0",
  "bbob-biobj_f82_i06_d20 1.0",
  "bbob-biobj_f82_i06_d40 1.0",
  "bbob-biobj_f82_i07_d02 1.0",
  "bbob-biobj_f82_i07_d03 1.0",
  "bbob-biobj_f82_i07_d05 1.0",
  "bbob-biobj_f82_i07_d10 1.0",
  "bbob-biobj_f82_i07_d20 1.0",
  "bbob-biobj_f82_i07_d40 1.0",
  "bbob-biobj_f82_i08_d02 1.0",
  "bbob-biobj_f82_i08_d03 1.0",
  "bbob-biobj_f82_i08_d05 1.0",
  "bbob-biobj_f82_i08_d10 1.0",
  "bbob-biobj_f82_i08_d20 1.0",
  "bbob-biobj_f82_i08_d40 1.0",
  "bbob-biobj_f82_i09_d02 1.0",
  "bbob-biobj_f82_i09_d03 1.0",
  "bbob-biobj_f82_i09_d05 1.0",
  "bbob-biobj_f82_i09_d10 1.0",
  "bbob-biobj_f82_i09_d20 1.0",
  "bbob-biobj_f82_i09_d40 1.0",
  "bbob-biobj_f82_i10_d02 1.0",
  "bbob-biobj_f82_i10_d03 1.0",
  "bbob-biobj_f82_i10_d05 1.0",
  "bbob-biobj_f82_i10_d10 1.0",
  "bbob-biobj_f82_i10_d20 1.0",
  "bbob-biobj_f82_i10_d40 1.0",
  "bbob-biobj_f82_i11_d02 1.0",
  "bbob-biobj_f82_i11_d03 1.0",
  "bbob-biobj_f82_i11_d05 1.0",
  "bbob-biobj_f82_i11_d10 1.0",
  "bbob-biobj_f82_i11_d20 1.0",
  "bbob-biobj_f82_i11_d40 1.0",
  "bbob-biobj_f82_i12_d02 1.0",
  "bbob-biobj_f82_i12_d03 1.0",
  "bbob-biobj_f82_i12_d05 1.0",
  "bbob-biobj_f82_i12_d10 1.0",
  "bbob-biobj_f82_i12_d20 1.0",
  "bbob-biobj_f82_i12_d40 1.0",
  "bbob-biobj_f82_i13_d02 1.0",
  "bbob-biobj_f82_i13_d03 1.0",
  "bbob-biobj_f82_i13_d05 1.0",
  "bbob-biobj_f82_i13_d10 1.0",
  "bbob-biobj_f82_i13_d20 1.0",
  "bbob-biobj_f82_i13_d40 1.0",
  "bbob-biobj_f82_i14_d02 1.0",
  "bbob-biobj_f82_i14_d03 1.0",
  "bbob-biobj_f82_i14_d05 1.0",
  "bbob-biobj_f82_i14_d10 1.0",
  "bbob-biobj_f82_i14_d20 1.0",
  "bbob-biobj_f82_i14_d40 1.0",
  "bbob-biobj_f82_i15_d02 1.0",
  "bbob-biobj_f82_i15_d03 1.0",
  "bbob-biobj_f82_i15_d05 1.0",
  "bbob-biobj_f82_i15_d10 1.0",
  "bbob-biobj_f82_i15_d20 1.0",
  "bbob-biobj_f82_i15_d40 1.0",
  "bbob-biobj_f83_i01_d02 1.0",
  "bbob-biobj_f83_i01_d03 1.0",
  "bbob-biobj_f83_i01_d05 1.0",
  "bbob-biobj_f83_i01_d10 1.0",
  "bbob-biobj_f83_i01_d20 1.0",
  "bbob-biobj_f83_i01_d40 1.0",
  "bbob-biobj_f83_i02_d02 1.0",
  "bbob-biobj_f83_i02_d03 1.0",
  "bbob-biobj_f83_i02_d05 1.0",
  "bbob-biobj_f83_i02_d10 1.0",
  "bbob-biobj_f83_i02_d20 1.0",
  "bbob-biobj_f83_i02_d40 1.0",
  "bbob-biobj_f83_i03_d02 1.0",
  "bbob-biobj_f83_i03_d03 1.0",
  "bbob-biobj_f83_i03_d05 1.0",
  "bbob-biobj_f83_i03_d10 1.0",
  "bbob-biobj_f83_i03_d20 1.0",
  "bbob-biobj_f83_i03_d40 1.0",
  "bbob-biobj_f83_i04_d02 1.0",
  "bbob-biobj_f83_i04_d03 1.0",
  "bbob-biobj_f83_i04_d05 1.0",
  "bbob-biobj_f83_i04_d10 1.0",
  "bbob-biobj_f83_i04_d20 1.0",
  "bbob-biobj_f83_i04_d40 1.0",
  "bbob-biobj_f83_i05_d02 1.0",
  "bbob-biobj_f83_i05_d03 1.0",
  "bbob-biobj_f83_i05_d05 1.0",
  "bbob-biobj_f83_i05_d10 1.0",
  "bbob-biobj_f83_i05_d20 1.0",
  "bbob-biobj_f83_i05_d40 1.0",
  "bbob-biobj_f83_i06_d02 1.0",
  "bbob-biobj_f83_i06_d03 1.0",
  "bbob-biobj_f83_i06_d05 1.0",
  "bbob-biobj_f83_i06_d10 1.0",
  "bbob-biobj_f83_i06_d20 1.0",
  "bbob-biobj_f83_i06_d40 1.0",
  "bbob-biobj_f83_i07_d02 1.0",
  "bbob-biobj_f83_i07_d03 1.0",
  "bbob-biobj_f83_i07_d05 1.0",
  "bbob-biobj_f83_i07_d10 1.0",
  "bbob-biobj_f83_i07_d20 1.0",
  "bbob-biobj_f83_i07_d40 1.0",
  "bbob-biobj_f83_i08_d02 1.0",
  "bbob-biobj_f83_i08_d03 1.0",
  "bbob-biobj_f83_i08_d05 1.0",
  "bbob-biobj_f83_i08_d10 1.0",
  "bbob-biobj_f83_i08_d20 1.0",
  "bbob-biobj_f83_i08_d40 1.0",
  "bbob-biobj_f83_i09_d02 1.0",
  "bbob-biobj_f83_i09_d03 1.0",
  "bbob-biobj_f83_i09_d05 1.0",
  "bbob-biobj_f83_i09_d10 1.0",
  "bbob-biobj_f83_i09_d20 1.0",
  "bbob-biobj_f83_i09_d40 1.0",
  "bbob-biobj_f83_i10_d02 1.0",
  "bbob-biobj_f83_i10_d03 1.0",
  "bbob-biobj_f83_i10_d05 1.0",
  "bbob-biobj_f83_i10_d10 1.0",
  "bbob-biobj_f83_i10_d20 1.0",
  "bbob-biobj_f83_i10_d40 1.0",
  "bbob-biobj_f83_i11_d02 1.0",
  "bbob-biobj_f83_i11_d03 1.0",
  "bbob-biobj_f83_i11_d05 1.0",
  "bbob-biobj_f83_i11_d10 1.0",
  "bbob-biobj_f83_i11_d20 1.0",
  "bbob-biobj_f83_i11_d40 1.0",
  "bbob-biobj_f83_i12_d02 1.0",
  "bbob-biobj_f83_i12_d03 1.0",
  "bbob-biobj_f83_i12_d05 1.0",
  "bbob-biobj_f83_i12_d10 1.0",
  "bbob-biobj_f83_i12_d20 1.0",
  "bbob-biobj_f83_i12_d40 1.0",
  "bbob-biobj_f83_i13_d02 1.0",
  "bbob-biobj_f83_i13_d03 1.0",
  "bbob-biobj_f83_i13_d05 1.0",
  "bbob-biobj_f83_i13_d10 1.0",
  "bbob-biobj_f83_i13_d20 1.0",
  "bbob-biobj_f83_i13_d40 1.0",
  "bbob-biobj_f83_i14_d02 1.0",
  "bbob-biobj_f83_i14_d03 1.0",
  "bbob-biobj_f83_i14_d05 1.0",
  "bbob-biobj_f83_i14_d10 1.0",
  "bbob-biobj_f83_i14_d20 1.0",
  "bbob-biobj_f83_i14_d40 1.0",
  "bbob-biobj_f83_i15_d02 1.0",
  "bbob-biobj_f83_i15_d03 1.0",
  "bbob-biobj_f83_i15_d05 1.0",
  "bbob-biobj_f83_i15_d10 1.0",
  "bbob-biobj_f83_i15_d20 1.0",
  "bbob-biobj_f83_i15_d40 1.0",
  "bbob-biobj_f84_i01_d02 1.0",
  "bbob-biobj_f84_i01_d03 1.0",
  "bbob-biobj_f84_i01_d05 1.0",
  "bbob-biobj_f84_i01_d10 1.0",
  "bbob-biobj_f84_i01_d20 1.0",
  "bbob-biobj_f84_i01_d40 1.0",
  "bbob-biobj_f84_i02_d02 1.0",
  "bbob-biobj_f84_i02_d03 1.0",
  "bbob-biobj_f84_i02_d05 1.0",
  "bbob-biobj_f84_i02_d10 1.0",
  "bbob-biobj_f84_i02_d20 1.0",
  "bbob-biobj_f84_i02_d40 1.0",
  "bbob-biobj_f84_i03_d02 1.0",
  "bbob-biobj_f84_i03_d03 1.0",
  "bbob-biobj_f84_i03_d05 1.0",
  "bbob-biobj_f84_i03_d10 1.0",
  "bbob-biobj_f84_i03_d20 1.0",
  "bbob-biobj_f84_i03_d40 1.0",
  "bbob-biobj_f84_i04_d02 1.0",
  "bbob-biobj_f84_i04_d03 1.0",
  "bbob-biobj_f84_i04_d05 1.0",
  "bbob-biobj_f84_i04_d10 1.0",
  "bbob-biobj_f84_i04_d20 1.0",
  "bbob-biobj_f84_i04_d40 1.0",
  "bbob-biobj_f84_i05_d02 1.0",
  "bbob-biobj_f84_i05_d03 1.0",
  "bbob-biobj_f84_i05_d05 1.0",
  "bbob-biobj_f84_i05_d10 1.0",
  "bbob-biobj_f84_i05_d20 1.0",
  "bbob-biobj_f84_i05_d40 1.0",
  "bbob-biobj_f84_i06_d02 1.0",
  "bbob-biobj_f84_i06_d03 1.0",
  "bbob-biobj_f84_i06_d05 1.0",
  "bbob-biobj_f84_i06_d10 1.0",
  "bbob-biobj_f84_i06_d20 1.0",
  "bbob-biobj_f84_i06_d40 1.0",
  "bbob-biobj_f84_i07_d02 1.0",
  "bbob-biobj_f84_i07_d03 1.0",
  "bbob-biobj_f84_i07_d05 1.0",
  "bbob-biobj_f84_i07_d10 1.0",
  "bbob-biobj_f84_i07_d20 1.0",
  "bbob-biobj_f84_i07_d40 1.0",
  "bbob-biobj_f84_i08_d02 1.0",
  "bbob-biobj_f84_i08_d03 1.0",
  "bbob-biobj_f84_i08_d05 1.0",
  "bbob-biobj_f84_i08_d10 1.0",
  "bbob-biobj_f84_i08_d20 1.0",
  "bbob-biobj_f84_i08_d40 1.0",
  "bbob-biobj_f84_i09_d02 1.0",
  "bbob-biobj_f84_i09_d03 1.0",
  "bbob-biobj_f84_i09_d05 1.0",
  "bbob-biobj_f84_i09_d10 1.0",
  "bbob-biobj_f84_i09_d20 1.0",
  "bbob-biobj_f84_i09_d40 1.0",
  "bbob-biobj_f84_i10_d02 1.0",
  "bbob-biobj_f84_i10_d03 1.0",
  "bbob-biobj_f84_i10_d05 1.0",
  "bbob-biobj_f84_i10_d10 1.0",
  "bbob-biobj_f84_i10_d20 1.0",
  "bbob-biobj_f84_i10_d40 1.0",
  "bbob-biobj_f84_i11_d02 1.0",
  "bbob-biobj_f84_i11_d03 1.0",
  "bbob-biobj_f84_i11_d05 1.0",
  "bbob-biobj_f84_i11_d10 1.0",
  "bbob-biobj_f84_i11_d20 1.0",
  "bbob-biobj_f84_i11_d40 1.0",
  "bbob-biobj_f84_i12_d02 1.0",
  "bbob-biobj_f84_i12_d03 1.0",
  "bbob-biobj_f84_i12_d05 1.0",
  "bbob-biobj_f84_i12_d10 1.0",
  "bbob-biobj_f84_i12_d20 1.0",
  "bbob-biobj_f84_i12_d40 1.0",
  "bbob-biobj_f84_i13_d02 1.0",
  "bbob-biobj_f84_i13_d03 1.0",
  "bbob-biobj_f84_i13_d05 1.0",
  "bbob-biobj_f84_i13_d10 1.0",
  "bbob-biobj_f84_i13_d20 1.0",
  "bbob-biobj_f84_i13_d40 1.0",
  "bbob-biobj_f84_i14_d02 1.0",
  "bbob-biobj_f84_i14_d03 1.0",
  "bbob-biobj_f84_i14_d05 1.0",
  "bbob-biobj_f84_i14_d10 1.0",
  "bbob-biobj_f84_i14_d20 1.0",
  "bbob-biobj_f84_i14_d40 1.0",
  "bbob-biobj_f84_i15_d02 1.0",
  "bbob-biobj_f84_i15_d03 1.0",
  "bbob-biobj_f84_i15_d05 1.0",
  "bbob-biobj_f84_i15_d10 1.0",
  "bbob-biobj_f84_i15_d20 1.0",
  "bbob-biobj_f84_i15_d40 1.0",
  "bbob-biobj_f85_i01_d02 1.0",
  "bbob-biobj_f85_i01_d03 1.0",
  "bbob-biobj_f85_i01_d05 1.0",
  "bbob-biobj_f85_i01_d10 1.0",
  "bbob-biobj_f85_i01_d20 1.0",
  "bbob-biobj_f85_i01_d40 1.0",
  "bbob-biobj_f85_i02_d02 1.0",
  "bbob-biobj_f85_i02_d03 1.0",
  "bbob-biobj_f85_i02_d05 1.0",
  "bbob-biobj_f85_i02_d10 1.0",
  "bbob-biobj_f85_i02_d20 1.0",
  "bbob-biobj_f85_i02_d40 1.0",
  "bbob-biobj_f85_i03_d02 1.0",
  "bbob-biobj_f85_i03_d03 1.0",
  "bbob-biobj_f85_i03_d05 1.0",
  "bbob-biobj_f85_i03_d10 1.0",
  "bbob-biobj_f85_i03_d20 1.0",
  "bbob-biobj_f85_i03_d40 1.0",
  "bbob-biobj_f85_i04_d02 1.0",
  "bbob-biobj_f85_i04_d03 1.0",
  "bbob-biobj_f85_i04_d05 1.0",
  "bbob-biobj_f85_i04_d10 1.0",
  "bbob-biobj_f85_i04_d20 1.0",
  "bbob-biobj_f85_i04_d40 1.0",
  "bbob-biobj_f85_i05_d02 1.0",
  "bbob-biobj_f85_i05_d03 1.0",
  "bbob-biobj_f85_i05_d05 1.0",
  "bbob-biobj_f85_i05_d10 1.0",
  "bbob-biobj_f85_i05_d20 1.0",
  "bbob-biobj_f85_i05_d40 1.0",
  "bbob-biobj_f85_i06_d02 1.0",
  "bbob-biobj_f85_i06_d03 1.0",
  "bbob-biobj_f85_i06_d05 1.0",
  "bbob-biobj_f85_i06_d10 1.0",
  "bbob-biobj_f85_i06_d20 1.0",
  "bbob-biobj_f85_i06_d40 1.0",
  "bbob-biobj_f85_i07_d02 1.0",
  "bbob-biobj_f85_i07_d03 1.0",
  "bbob-biobj_f85_i07_d05 1.0",
  "bbob-biobj_f85_i07_d10 1.0",
  "bbob-biobj_f85_i07_d20 1.0",
  "bbob-biobj_f85_i07_d40 1.0",
  "bbob-biobj_f85_i08_d02 1.0",
  "bbob-biobj_f85_i08_d03 1.0",
  "bbob-biobj_f85_i08_d05 1.0",
  "bbob-biobj_f85_i08_d10 1.0",
  "bbob-biobj_f85_i08_d20 1.0",
  "bbob-biobj_f85_i08_d40 1.0",
  "bbob-biobj_f85_i09_d02 1.0",
  "bbob-biobj_f85_i09_d03 1.0",
  "bbob-biobj_f85_i09_d05 1.0",
  "bbob-biobj_f85_i09_d10 1.0",
  "bbob-biobj_f85_i09_d20 1.0",
  "bbob-biobj_f85_i09_d40 1.0",
  "bbob-biobj_f85_i10_d02 1.0",
  "bbob-biobj_f85_i10_d03 1.0",
  "bbob-biobj_f85_i10_d05 1.0",
  "bbob-biobj_f85_i10_d10 1.0",
  "bbob-biobj_f85_i10_d20 1.0",
  "bbob-biobj_f85_i10_d40 1.0",
  "bbob-biobj_f85_i11_d02 1.0",
  "bbob-biobj_f85_i11_d03 1.0",
  "bbob-biobj_f85_i11_d05 1.0",
  "bbob-biobj_f85_i11_d10 1.0",
  "bbob-biobj_f85_i11_d20 1.0",
  "bbob-biobj_f85_i11_d40 1.0",
  "bbob-biobj_f85_i12_d02 1.0",
  "bbob-biobj_f85_i12_d03 1.0",
  "bbob-biobj_f85_i12_d05 1.0",
  "bbob-biobj_f85_i12_d10 1.0",
  "bbob-biobj_f85_i12_d20 1.0",
  "bbob-biobj_f85_i12_d40 1.0",
  "bbob-biobj_f85_i13_d02 1.0",
  "bbob-biobj_f85_i13_d03 1.0",
  "bbob-biobj_f85_i13_d05 1.0",
  "bbob-biobj_f85_i13_d10 1.0",
  "bbob-biobj_f85_i13_d20 1.0",
  "bbob-biobj_f85_i13_d40 1.0",
  "bbob-biobj_f85_i14_d02 1.0",
  "bbob-biobj_f85_i14_d03 1.0",
  "bbob-biobj_f85_i14_d05 1.0",
  "bbob-biobj_f85_i14_d10 1.0",
  "bbob-biobj_f85_i14_d20 1.0",
  "bbob-biobj_f85_i14_d40 1.0",
  "bbob-biobj_f85_i15_d02 1.0",
  "bbob-biobj_f85_i15_d03 1.0",
  "bbob-biobj_f85_i15_d05 1.0",
  "bbob-biobj_f85_i15_d10 1.0",
  "bbob-biobj_f85_i15_d20 1.0",
  "bbob-biobj_f85_i15_d40 1.0",
  "bbob-biobj_f86_i01_d02 1.0",
  "bbob-biobj_f86_i01_d03 1.0",
  "bbob-biobj_f86_i01_d05 1.0",
  "bbob-biobj_f86_i01_d10 1.0",
  "bbob-biobj_f86_i01_d20 1.0",
  "bbob-biobj_f86_i01_d40 1.0",
  "bbob-biobj_f86_i02_d02 1.0",
  "bbob-biobj_f86_i02_d03 1.0",
  "bbob-biobj_f86_i02_d05 1.0",
  "bbob-biobj_f86_i02_d10 1.0",
  "bbob-biobj_f86_i02_d20 1.0",
  "bbob-biobj_f86_i02_d40 1.0",
  "bbob-biobj_f86_i03_d02 1.0",
  "bbob-biobj_f86_i03_d03 1.0",
  "bbob-biobj_f86_i03_d05 1.0",
  "bbob-biobj_f86_i03_d10 1.0",
  "bbob-biobj_f86_i03_d20 1.0",
  "bbob-biobj_f86_i03_d40 1.0",
  "bbob-biobj_f86_i04_d02 1.0",
  "bbob-biobj_f86_i04_d03 1.0",
  "bbob-biobj_f86_i04_d05 1.0",
  "bbob-biobj_f86_i04_d10 1.0",
  "bbob-biobj_f86_i04_d20 1.0",
  "bbob-biobj_f86_i04_d40 1.0",
  "bbob-biobj_f86_i05_d02 1.0",
  "bbob-biobj_f86_i05_d03 1.0",
  "bbob-biobj_f86_i05_d05 1.0",
  "bbob-biobj_f86_i05_d10 1.0",
  "bbob-biobj_f86_i05_d20 1.0",
  "bbob-biobj_f86_i05_d40 1.0",
  "bbob-biobj_f86_i06_d02 1.0",
  "bbob-biobj_f86_i06_d03 1.0",
  "bbob-biobj_f86_i06_d05 1.0",
  "bbob-biobj_f86_i06_d10 1.0",
  "bbob-biobj_f86_i06_d20 1.0",
  "bbob-biobj_f86_i06_d40 1.0",
  "bbob-biobj_f86_i07_d02 1.0",
  "bbob-biobj_f86_i07_d03 1.0",
  "bbob-biobj_f86_i07_d05 1.0",
  "bbob-biobj_f86_i07_d10 1.0",
  "bbob-biobj_f86_i07_d20 1.0",
  "bbob-biobj_f86_i07_d40 1.0",
  "bbob-biobj_f86_i08_d02 1.0",
  "bbob-biobj_f86_i08_d03 1.0",
  "bbob-biobj_f86_i08_d05 1.0",
  "bbob-biobj_f86_i08_d10 1.0",
  "bbob-biobj_f86_i08_d20 1.0",
  "bbob-biobj_f86_i08_d40 1.0",
  "bbob-biobj_f86_i09_d02 1.0",
  "bbob-biobj_f86_i09_d03 1.0",
  "bbob-biobj_f86_i09_d05 1.0",
  "bbob-biobj_f86_i09_d10 1.0",
  "bbob-biobj_f86_i09_d20 1.0",
  "bbob-biobj_f86_i09_d40 1.0",
  "bbob-biobj_f86_i10_d02 1.0",
  "bbob-biobj_f86_i10_d03 1.0",
  "bbob-biobj_f86_i10_d05 1.0",
  "bbob-biobj_f86_i10_d10 1.0",
  "bbob-biobj_f86_i10_d20 1.0",
  "bbob-biobj_f86_i10_d40 1.0",
  "bbob-biobj_f86_i11_d02 1.0",
  "bbob-biobj_f86_i11_d03 1.0",
  "bbob-biobj_f86_i11_d05 1.0",
  "bbob-biobj_f86_i11_d10 1.0",
  "bbob-biobj_f86_i11_d20 1.0",
  "bbob-biobj_f86_i11_d40 1.0",
  "bbob-biobj_f86_i12_d02 1.0",
  "bbob-biobj_f86_i12_d03 1.0",
  "bbob-biobj_f86_i12_d05 1.0",
  "bbob-biobj_f86_i12_d10 1.0",
  "bbob-biobj_f86_i12_d20 1.0",
  "bbob-biobj_f86_i12_d40 1.0",
  "bbob-biobj_f86_i13_d02 1.0",
  "bbob-biobj_f86_i13_d03 1.0",
  "bbob-biobj_f86_i13_d05 1.0",
  "bbob-biobj_f86_i13_d10 1.0",
  "bbob-biobj_f86_i13_d20 1.0",
  "bbob-biobj_f86_i13_d40 1.0",
  "bbob-biobj_f86_i14_d02 1.0",
  "bbob-biobj_f86_i14_d03 1.0",
  "bbob-biobj_f86_i14_d05 1.0",
  "bbob-biobj_f86_i14_d10 1.0",
  "bbob-biobj_f86_i14_d20 1.0",
  "bbob-biobj_f86_i14_d40 1.0",
  "bbob-biobj_f86_i15_d02 1.0",
  "bbob-biobj_f86_i15_d03 1.0",
  "bbob-biobj_f86_i15_d05 1.0",
  "bbob-biobj_f86_i15_d10 1.0",
  "bbob-biobj_f86_i15_d20 1.0",
  "bbob-biobj_f86_i15_d40 1.0",
  "bbob-biobj_f87_i01_d02 1.0",
  "bbob-biobj_f87_i01_d03 1.0",
  "bbob-biobj_f87_i01_d05 1.0",
  "bbob-biobj_f87_i01_d10 1.0",
  "bbob-biobj_f87_i01_d20 1.0",
  "bbob-biobj_f87_i01_d40 1.0",
  "bbob-biobj_f87_i02_d02 1.0",
  "bbob-biobj_f87_i02_d03 1.0",
  "bbob-biobj_f87_i02_d05 1.0",
  "bbob-biobj_f87_i02_d10 1.0",
  "bbob-biobj_f87_i02_d20 1.0",
  "bbob-biobj_f87_i02_d40 1.0",
  "bbob-biobj_f87_i03_d02 1.0",
  "bbob-biobj_f87_i03_d03 1.0",
  "bbob-biobj_f87_i03_d05 1.0",
  "bbob-biobj_f87_i03_d10 1.0",
  "bbob-biobj_f87_i03_d20 1.0",
  "bbob-biobj_f87_i03_d40 1.0",
  "bbob-biobj_f87_i04_d02 1.0",
  "bbob-biobj_f87_i04_d03 1.0",
  "bbob-biobj_f87_i04_d05 1.0",
  "bbob-biobj_f87_i04_d10 1.0",
  "bbob-biobj_f87_i04_d20 1.0",
  "bbob-biobj_f87_i04_d40 1.0",
  "bbob-biobj_f87_i05_d02 1.0",
  "bbob-biobj_f87_i05_d03 1.0",
  "bbob-biobj_f87_i05_d05 1.0",
  "bbob-biobj_f87_i05_d10 1.0",
  "bbob-biobj_f87_i05_d20 1.0",
  "bbob-biobj_f87_i05_d40 1.0",
  "bbob-biobj_f87_i06_d02 1.0",
  "bbob-biobj_f87_i06_d03 1.0",
  "bbob-biobj_f87_i06_d05 1.0",
  "bbob-biobj_f87_i06_d10 1.0",
  "bbob-biobj_f87_i06_d20 1.0",
  "bbob-biobj_f87_i06_d40 1.0",
  "bbob-biobj_f87_i07_d02 1.0",
  "bbob-biobj_f87_i07_d03 1.0",
  "bbob-biobj_f87_i07_d05 1.0",
  "bbob-biobj_f87_i07_d10 1.0",
  "bbob-biobj_f87_i07_d20 1.0",
  "bbob-biobj_f87_i07_d40 1.0",
  "bbob-biobj_f87_i08_d02 1.0",
  "bbob-biobj_f87_i08_d03 1.0",
  "bbob-biobj_f87_i08_d05 1.0",
  "bbob-biobj_f87_i08_d10 1.0",
  "bbob-biobj_f87_i08_d20 1.0",
  "bbob-biobj_f87_i08_d40 1.0",
  "bbob-biobj_f87_i09_d02 1.0",
  "bbob-biobj_f87_i09_d03 1.0",
  "bbob-biobj_f87_i09_d05 1.0",
  "bbob-biobj_f87_i09_d10 1.0",
  "bbob-biobj_f87_i09_d20 1.0",
  "bbob-biobj_f87_i09_d40 1.0",
  "bbob-biobj_f87_i10_d02 1.0",
  "bbob-biobj_f87_i10_d03 1.0",
  "bbob-biobj_f87_i10_d05 1.0",
  "bbob-biobj_f87_i10_d10 1.0",
  "bbob-biobj_f87_i10_d20 1.0",
  "bbob-biobj_f87_i10_d40 1.0",
  "bbob-biobj_f87_i11_d02 1.0",
  "bbob-biobj_f87_i11_d03 1.0",
  "bbob-biobj_f87_i11_d05 1.0",
  "bbob-biobj_f87_i11_d10 1.0",
  "bbob-biobj_f87_i11_d20 1.0",
  "bbob-biobj_f87_i11_d40 1.0",
  "bbob-biobj_f87_i12_d02 1.0",
  "bbob-biobj_f87_i12_d03 1.0",
  "bbob-biobj_f87_i12_d05 1.0",
  "bbob-biobj_f87_i12_d10 1.0",
  "bbob-biobj_f87_i12_d20 1.0",
  "bbob-biobj_f87_i12_d40 1.0",
  "bbob-biobj_f87_i13_d02 1.0",
  "bbob-biobj_f87_i13_d03 1.0",
  "bbob-biobj_f87_i13_d05 1.0",
  "bbob-biobj_f87_i13_d10 1.0",
  "bbob-biobj_f87_i13_d20 1.0",
  "bbob-biobj_f87_i13_d40 1.0",
  "bbob-biobj_f87_i14_d02 1.0",
  "bbob-biobj_f87_i14_d03 1.0",
  "bbob-biobj_f87_i14_d05 1.0",
  "bbob-biobj_f87_i14_d10 1.0",
  "bbob-biobj_f87_i14_d20 1.0",
  "bbob-biobj_f87_i14_d40 1.0",
  "bbob-biobj_f87_i15_d02 1.0",
  "bbob-biobj_f87_i15_d03 1.0",
  "bbob-biobj_f87_i15_d05 1.0",
  "bbob-biobj_f87_i15_d10 1.0",
  "bbob-biobj_f87_i15_d20 1.0",
  "bbob-biobj_f87_i15_d40 1.0",
  "bbob-biobj_f88_i01_d02 1.0",
  "bbob-biobj_f88_i01_d03 1.0",
  "bbob-biobj_f88_i01_d05 1.0",
  "bbob-biobj_f88_i01_d10 1.0",
  "bbob-biobj_f88_i01_d20 1.0",
  "bbob-biobj_f88_i01_d40 1.0",
  "bbob-biobj_f88_i02_d02 1.0",
  "bbob-biobj_f88_i02_d03 1.0",
  "bbob-biobj_f88_i02_d05 1.0",
  "bbob-biobj_f88_i02_d10 1.0",
  "bbob-biobj_f88_i02_d20 1.0",
  "bbob-biobj_f88_i02_d40 1.0",
  "bbob-biobj_f88_i03_d02 1.0",
  "bbob-biobj_f88_i03_d03 1.0",
  "bbob-biobj_f88_i03_d05 1.0",
  "bbob-biobj_f88_i03_d10 1.0",
  "bbob-biobj_f88_i03_d20 1.0",
  "bbob-biobj_f88_i03_d40 1.0",
  "bbob-biobj_f88_i04_d02 1.0",
  "bbob-biobj_f88_i04_d03 1.0",
  "bbob-biobj_f88_i04_d05 1.0",
  "bbob-biobj_f88_i04_d10 1.0",
  "bbob-biobj_f88_i04_d20 1.0",
  "bbob-biobj_f88_i04_d40 1.0",
  "bbob-biobj_f88_i05_d02 1.0",
  "bbob-biobj_f88_i05_d03 1.0",
  "bbob-biobj_f88_i05_d05 1.0",
  "bbob-biobj_f88_i05_d10 1.0",
  "bbob-biobj_f88_i05_d20 1.0",
  "bbob-biobj_f88_i05_d40 1.0",
  "bbob-biobj_f88_i06_d02 1.0",
  "bbob-biobj_f88_i06_d03 1.0",
  "bbob-biobj_f88_i06_d05 1.0",
  "bbob-biobj_f88_i06_d10 1.0",
  "bbob-biobj_f88_i06_d20 1.0",
  "bbob-biobj_f88_i06_d40 1.0",
  "bbob-biobj_f88_i07_d02 1.0",
  "bbob-biobj_f88_i07_d03 1.0",
  "bbob-biobj_f88_i07_d05 1.0",
  "bbob-biobj_f88_i07_d10 1.0",
  "bbob-biobj_f88_i07_d20 1.0",
  "bbob-biobj_f88_i07_d40 1.0",
  "bbob-biobj_f88_i08_d02 1.0",
  "bbob-biobj_f88_i08_d03 1.0",
  "bbob-biobj_f88_i08_d05 1.0",
  "bbob-biobj_f88_i08_d10 1.0",
  "bbob-biobj_f88_i08_d20 1.0",
  "bbob-biobj_f88_i08_d40 1.0",
  "bbob-biobj_f88_i09_d02 1.0",
  "bbob-biobj_f88_i09_d03 1.0",
  "bbob-biobj_f88_i09_d05 1.0",
  "bbob-biobj_f88_i09_d10 1.0",
  "bbob-biobj_f88_i09_d20 1.0",
  "bbob-biobj_f88_i09_d40 1.0",
  "bbob-biobj_f88_i10_d02 1.0",
  "bbob-biobj_f88_i10_d03 1.0",
  "bbob-biobj_f88_i10_d05 1.0",
  "bbob-biobj_f88_i10_d10 1.0",
  "bbob-biobj_f88_i10_d20 1.0",
  "bbob-biobj_f88_i10_d40 1.0",
  "bbob-biobj_f88_i11_d02 1.0",
  "bbob-biobj_f88_i11_d03 1.0",
  "bbob-biobj_f88_i11_d05 1.0",
  "bbob-biobj_f88_i11_d10 1.0",
  "bbob-biobj_f88_i11_d20 1.0",
  "bbob-biobj_f88_i11_d40 1.0",
  "bbob-biobj_f88_i12_d02 1.0",
  "bbob-biobj_f88_i12_d03 1.0",
  "bbob-biobj_f88_i12_d05 1.0",
  "bbob-biobj_f88_i12_d10 1.0",
  "bbob-biobj_f88_i12_d20 1.0",
  "bbob-biobj_f88_i12_d40 1.0",
  "bbob-biobj_f88_i13_d02 1.0",
  "bbob-biobj_f88_i13_d03 1.0",
  "bbob-biobj_f88_i13_d05 1.0",
  "bbob-biobj_f88_i13_d10 1.0",
  "bbob-biobj_f88_i13_d20 1.0",
  "bbob-biobj_f88_i13_d40 1.0",
  "bbob-biobj_f88_i14_d02 1.0",
  "bbob-biobj_f88_i14_d03 1.0",
  "bbob-biobj_f88_i14_d05 1.0",
  "bbob-biobj_f88_i14_d10 1.0",
  "bbob-biobj_f88_i14_d20 1.0",
  "bbob-biobj_f88_i14_d40 1.0",
  "bbob-biobj_f88_i15_d02 1.0",
  "bbob-biobj_f88_i15_d03 1.0",
  "bbob-biobj_f88_i15_d05 1.0",
  "bbob-biobj_f88_i15_d10 1.0",
  "bbob-biobj_f88_i15_d20 1.0",
  "bbob-biobj_f88_i15_d40 1.0",
  "bbob-biobj_f89_i01_d02 1.0",
  "bbob-biobj_f89_i01_d03 1.0",
  "bbob-biobj_f89_i01_d05 1.0",
  "bbob-biobj_f89_i01_d10 1.0",
  "bbob-biobj_f89_i01_d20 1.0",
  "bbob-biobj_f89_i01_d40 1.0",
  "bbob-biobj_f89_i02_d02 1.0",
  "bbob-biobj_f89_i02_d03 1.0",
  "bbob-biobj_f89_i02_d05 1.0",
  "bbob-biobj_f89_i02_d10 1.0",
  "bbob-biobj_f89_i02_d20 1.0",
  "bbob-biobj_f89_i02_d40 1.0",
  "bbob-biobj_f89_i03_d02 1.0",
  "bbob-biobj_f89_i03_d03 1.0",
  "bbob-biobj_f89_i03_d05 1.0",
  "bbob-biobj_f89_i03_d10 1.0",
  "bbob-biobj_f89_i03_d20 1.0",
  "bbob-biobj_f89_i03_d40 1.0",
  "bbob-biobj_f89_i04_d02 1.0",
  "bbob-biobj_f89_i04_d03 1.0",
  "bbob-biobj_f89_i04_d05 1.0",
  "bbob-biobj_f89_i04_d10 1.0",
  "bbob-biobj_f89_i04_d20 1.0",
  "bbob-biobj_f89_i04_d40 1.0",
  "bbob-biobj_f89_i05_d02 1.0",
  "bbob-biobj_f89_i05_d03 1.0",
  "bbob-biobj_f89_i05_d05 1.0",
  "bbob-biobj_f89_i05_d10 1.0",
  "bbob-biobj_f89_i05_d20 1.0",
  "bbob-biobj_f89_i05_d40 1.0",
  "bbob-biobj_f89_i06_d02 1.0",
  "bbob-biobj_f89_i06_d03 1.0",
  "bbob-biobj_f89_i06_d05 1.0",
  "bbob-biobj_f89_i06_d10 1.0",
  "bbob-biobj_f89_i06_d20 1.0",
  "bbob-biobj_f89_i06_d40 1.0",
  "bbob-biobj_f89_i07_d02 1.0",
  "bbob-biobj_f89_i07_d03 1.0",
  "bbob-biobj_f89_i07_d05 1.0",
  "bbob-biobj_f89_i07_d10 1.0",
  "bbob-biobj_f89_i07_d20 1.0",
  "bbob-biobj_f89_i07_d40 1.0",
  "bbob-biobj_f89_i08_d02 1.0",
  "bbob-biobj_f89_i08_d03 1.0",
  "bbob-biobj_f89_i08_d05 1.0",
  "bbob-biobj_f89_i08_d10 1.0",
  "bbob-biobj_f89_i08_d20 1.0",
  "bbob-biobj_f89_i08_d40 1.0",
  "bbob-biobj_f89_i09_d02 1.0",
  "bbob-biobj_f89_i09_d03 1.0",
  "bbob-biobj_f89_i09_d05 1.0",
  "bbob-biobj_f89_i09_d10 1.0",
  "bbob-biobj_f89_i09_d20 1.0",
  "bbob-biobj_f89_i09_d40 1.0",
  "bbob-biobj_f89_i10_d02 1.0",
  "bbob-biobj_f89_i10_d03 1.0",
  "bbob-biobj_f89_i10_d05 1.0",
  "bbob-biobj_f89_i10_d10 1.0",
  "bbob-biobj_f89_i10_d20 1.0",
  "bbob-biobj_f89_i10_d40 1.0",
  "bbob-biobj_f89_i11_d02 1.0",
  "bbob-biobj_f89_i11_d03 1.0",
  "bbob-biobj_f89_i11_d05 1.0",
  "bbob-biobj_f89_i11_d10 1.0",
  "bbob-biobj_f89_i11_d20 1.0",
  "bbob-biobj_f89_i11_d40 1.0",
  "bbob-biobj_f89_i12_d02 1.0",
  "bbob-biobj_f89_i12_d03 1.0",
  "bbob-biobj_f89_i12_d05 1.0",
  "bbob-biobj_f89_i12_d10 1.0",
  "bbob-biobj_f89_i12_d20 1.0",
  "bbob-biobj_f89_i12_d40 1.0",
  "bbob-biobj_f89_i13_d02 1.0",
  "bbob-biobj_f89_i13_d03 1.0",
  "bbob-biobj_f89_i13_d05 1.0",
  "bbob-biobj_f89_i13_d10 1.0",
  "bbob-biobj_f89_i13_d20 1.0",
  "bbob-biobj_f89_i13_d40 1.0",
  "bbob-biobj_f89_i14_d02 1.0",
  "bbob-biobj_f89_i14_d03 1.0",
  "bbob-biobj_f89_i14_d05 1.0",
  "bbob-biobj_f89_i14_d10 1.0",
  "bbob-biobj_f89_i14_d20 1.0",
  "bbob-biobj_f89_i14_d40 1.0",
  "bbob-biobj_f89_i15_d02 1.0",
  "bbob-biobj_f89_i15_d03 1.0",
  "bbob-biobj_f89_i15_d05 1.0",
  "bbob-biobj_f89_i15_d10 1.0",
  "bbob-biobj_f89_i15_d20 1.0",
  "bbob-biobj_f89_i15_d40 1.0",
  "bbob-biobj_f90_i01_d02 1.0",
  "bbob-biobj_f90_i01_d03 1.0",
  "bbob-biobj_f90_i01_d05 1.0",
  "bbob-biobj_f90_i01_d10 1.0",
  "bbob-biobj_f90_i01_d20 1.0",
  "bbob-biobj_f90_i01_d40 1.0",
  "bbob-biobj_f90_i02_d02 1.0",
  "bbob-biobj_f90_i02_d03 1.0",
  "bbob-biobj_f90_i02_d05 1.0",
  "bbob-biobj_f90_i02_d10 1.0",
  "bbob-biobj_f90_i02_d20 1.0",
  "bbob-biobj_f90_i02_d40 1.0",
  "bbob-biobj_f90_i03_d02 1.0",
  "bbob-biobj_f90_i03_d03 1.0",
  "bbob-biobj_f90_i03_d05 1.0",
  "bbob-biobj_f90_i03_d10 1.0",
  "bbob-biobj_f90_i03_d20 1.0",
  "bbob-biobj_f90_i03_d40 1.0",
  "bbob-biobj_f90_i04_d02 1.0",
  "bbob-biobj_f90_i04_d03 1.0",
  "bbob-biobj_f90_i04_d05 1.0",
  "bbob-biobj_f90_i04_d10 1.0",
  "bbob-biobj_f90_i04_d20 1.0",
  "bbob-biobj_f90_i04_d40 1.0",
  "bbob-biobj_f90_i05_d02 1.0",
  "bbob-biobj_f90_i05_d03 1.0",
  "bbob-biobj_f90_i05_d05 1.0",
  "bbob-biobj_f90_i05_d10 1.0",
  "bbob-biobj_f90_i05_d20 1.0",
  "bbob-biobj_f90_i05_d40 1.0",
  "bbob-biobj_f90_i06_d02 1.0",
  "bbob-biobj_f90_i06_d03 1.0",
  "bbob-biobj_f90_i06_d05 1.0",
  "bbob-biobj_f90_i06_d10 1.0",
  "bbob-biobj_f90_i06_d20 1.0",
  "bbob-biobj_f90_i06_d40 1.0",
  "bbob-biobj_f90_i07_d02 1.0",
  "bbob-biobj_f90_i07_d03 1.0",
  "bbob-biobj_f90_i07_d05 1.0",
  "bbob-biobj_f90_i07_d10 1.0",
  "bbob-biobj_f90_i07_d20 1.0",
  "bbob-biobj_f90_i07_d40 1.0",
  "bbob-biobj_f90_i08_d02 1.0",
  "bbob-biobj_f90_i08_d03 1.0",
  "bbob-biobj_f90_i08_d05 1.0",
  "bbob-biobj_f90_i08_d10 1.0",
  "bbob-biobj_f90_i08_d20 1.0",
  "bbob-biobj_f90_i08_d40 1.0",
  "bbob-biobj_f90_i09_d02 1.0",
  "bbob-biobj_f90_i09_d03 1.0",
  "bbob-biobj_f90_i09_d05 1.0",
  "bbob-biobj_f90_i09_d10 1.0",
  "bbob-biobj_f90_i09_d20 1.0",
  "bbob-biobj_f90_i09_d40 1.0",
  "bbob-biobj_f90_i10_d02 1.0",
  "bbob-biobj_f90_i10_d03 1.0",
  "bbob-biobj_f90_i10_d05 1.0",
  "bbob-biobj_f90_i10_d10 1.0",
  "bbob-biobj_f90_i10_d20 1.0",
  "bbob-biobj_f90_i10_d40 1.0",
  "bbob-biobj_f90_i11_d02 1.0",
  "bbob-biobj_f90_i11_d03 1.0",
  "bbob-biobj_f90_i11_d05 1.0",
  "bbob-biobj_f90_i11_d10 1.0",
  "bbob-biobj_f90_i11_d20 1.0",
  "bbob-biobj_f90_i11_d40 1.0",
  "bbob-biobj_f90_i12_d02 1.0",
  "bbob-biobj_f90_i12_d03 1.0",
  "bbob-biobj_f90_i12_d05 1.0",
  "bbob-biobj_f90_i12_d10 1.0",
  "bbob-biobj_f90_i12_d20 1.0",
  "bbob-biobj_f90_i12_d40 1.0",
  "bbob-biobj_f90_i13_d02 1.0",
  "bbob-biobj_f90_i13_d03 1.0",
  "bbob-biobj_f90_i13_d05 1.0",
  "bbob-biobj_f90_i13_d10 1.0",
  "bbob-biobj_f90_i13_d20 1.0",
  "bbob-biobj_f90_i13_d40 1.0",
  "bbob-biobj_f90_i14_d02 1.0",
  "bbob-biobj_f90_i14_d03 1.0",
  "bbob-biobj_f90_i14_d05 1.0",
  "bbob-biobj_f90_i14_d10 1.0",
  "bbob-biobj_f90_i14_d20 1.0",
  "bbob-biobj_f90_i14_d40 1.0",
  "bbob-biobj_f90_i15_d02 1.0",
  "bbob-biobj_f90_i15_d03 1.0",
  "bbob-biobj_f90_i15_d05 1.0",
  "bbob-biobj_f90_i15_d10 1.0",
  "bbob-biobj_f90_i15_d20 1.0",
  "bbob-biobj_f90_i15_d40 1.0",
  "bbob-biobj_f91_i01_d02 1.0",
  "bbob-biobj_f91_i01_d03 1.0",
  "bbob-biobj_f91_i01_d05 1.0",
  "bbob-biobj_f91_i01_d10 1.0",
  "bbob-biobj_f91_i01_d20 1.0",
  "bbob-biobj_f91_i01_d40 1.0",
  "bbob-biobj_f91_i02_d02 1.0",
  "bbob-biobj_f91_i02_d03 1.0",
  "bbob-biobj_f91_i02_d05 1.0",
  "bbob-biobj_f91_i02_d10 1.0",
  "bbob-biobj_f91_i02_d20 1.0",
  "bbob-biobj_f91_i02_d40 1.0",
  "bbob-biobj_f91_i03_d02 1.0",
  "bbob-biobj_f91_i03_d03 1.0",
  "bbob-biobj_f91_i03_d05 1.0",
  "bbob-biobj_f91_i03_d10 1.0",
  "bbob-biobj_f91_i03_d20 1.0",
  "bbob-biobj_f91_i03_d40 1.0",
  "bbob-biobj_f91_i04_d02 1.0",
  "bbob-biobj_f91_i04_d03 1.0",
  "bbob-biobj_f91_i04_d05 1.0",
  "bbob-biobj_f91_i04_d10 1.0",
  "bbob-biobj_f91_i04_d20 1.0",
  "bbob-biobj_f91_i04_d40 1.0",
  "bbob-biobj_f91_i05_d02 1.0",
  "bbob-biobj_f91_i05_d03 1.0",
  "bbob-biobj_f91_i05_d05 1.0",
  "bbob-biobj_f91_i05_d10 1.0",
  "bbob-biobj_f91_i05_d20 1.0",
  "bbob-biobj_f91_i05_d40 1.0",
  "bbob-biobj_f91_i06_d02 1.0",
  "bbob-biobj_f91_i06_d03 1.0",
  "bbob-biobj_f91_i06_d05 1.0",
  "bbob-biobj_f91_i06_d10 1.0",
  "bbob-biobj_f91_i06_d20 1.0",
  "bbob-biobj_f91_i06_d40 1.0",
  "bbob-biobj_f91_i07_d02 1.0",
  "bbob-biobj_f91_i07_d03 1.0",
  "bbob-biobj_f91_i07_d05 1.0",
  "bbob-biobj_f91_i07_d10 1.0",
  "bbob-biobj_f91_i07_d20 1.0",
  "bbob-biobj_f91_i07_d40 1.0",
  "bbob-biobj_f91_i08_d02 1.0",
  "bbob-biobj_f91_i08_d03 1.0",
  "bbob-biobj_f91_i08_d05 1.0",
  "bbob-biobj_f91_i08_d10 1.0",
  "bbob-biobj_f91_i08_d20 1.0",
  "bbob-biobj_f91_i08_d40 1.0",
  "bbob-biobj_f91_i09_d02 1.0",
  "bbob-biobj_f91_i09_d03 1.0",
  "bbob-biobj_f91_i09_d05 1.0",
  "bbob-biobj_f91_i09_d10 1.0",
  "bbob-biobj_f91_i09_d20 1.0",
  "bbob-biobj_f91_i09_d40 1.0",
  "bbob-biobj_f91_i10_d02 1.0",
  "bbob-biobj_f91_i10_d03 1.0",
  "bbob-biobj_f91_i10_d05 1.0",
  "bbob-biobj_f91_i10_d10 1.0",
  "bbob-biobj_f91_i10_d20 1.0",
  "bbob-biobj_f91_i10_d40 1.0",
  "bbob-biobj_f91_i11_d02 1.0",
  "bbob-biobj_f91_i11_d03 1.0",
  "bbob-biobj_f91_i11_d05 1.0",
  "bbob-biobj_f91_i11_d10 1.0",
  "bbob-biobj_f91_i11_d20 1.0",
  "bbob-biobj_f91_i11_d40 1.0",
  "bbob-biobj_f91_i12_d02 1.0",
  "bbob-biobj_f91_i12_d03 1.0",
  "bbob-biobj_f91_i12_d05 1.0",
  "bbob-biobj_f91_i12_d10 1.0",
  "bbob-biobj_f91_i12_d20 1.0",
  "bbob-biobj_f91_i12_d40 1.0",
  "bbob-biobj_f91_i13_d02 1.0",
  "bbob-biobj_f91_i13_d03 1.0",
  "bbob-biobj_f91_i13_d05 1.0",
  "bbob-biobj_f91_i13_d10 1.0",
  "bbob-biobj_f91_i13_d20 1.0",
  "bbob-biobj_f91_i13_d40 1.0",
  "bbob-biobj_f91_i14_d02 1.0",
  "bbob-biobj_f91_i14_d03 1.0",
  "bbob-biobj_f91_i14_d05 1.0",
  "bbob-biobj_f91_i14_d10 1.0",
  "bbob-biobj_f91_i14_d20 1.0",
  "bbob-biobj_f91_i14_d40 1.0",
  "bbob-biobj_f91_i15_d02 1.0",
  "bbob-biobj_f91_i15_d03 1.0",
  "bbob-biobj_f91_i15_d05 1.0",
  "bbob-biobj_f91_i15_d10 1.0",
  "bbob-biobj_f91_i15_d20 1.0",
  "bbob-biobj_f91_i15_d40 1.0",
  "bbob-biobj_f92_i01_d02 1.0",
  "bbob-biobj_f92_i01_d03 1.0",
  "bbob-biobj_f92_i01_d05 1.0",
  "bbob-biobj_f92_i01_d10 1.0",
  "bbob-biobj_f92_i01_d20 1.0",
  "bbob-biobj_f92_i01_d40 1.0",
  "bbob-biobj_f92_i02_d02 1.0",
  "bbob-biobj_f92_i02_d03 1.0",
  "bbob-biobj_f92_i02_d05 1.0",
  "bbob-biobj_f92_i02_d10 1.0",
  "bbob-biobj_f92_i02_d20 1.0",
  "bbob-biobj_f92_i02_d40 1.0",
  "bbob-biobj_f92_i03_d02 1.0",
  "bbob-biobj_f92_i03_d03 1.0",
  "bbob-biobj_f92_i03_d05 1.0",
  "bbob-biobj_f92_i03_d10 1.0",
  "bbob-biobj_f92_i03_d20 1.0",
  "bbob-biobj_f92_i03_d40 1.0",
  "bbob-biobj_f92_i04_d02 1.0",
  "bbob-biobj_f92_i04_d03 1.0",
  "bbob-biobj_f92_i04_d05 1.0",
  "bbob-biobj_f92_i04_d10 1.0",
  "bbob-biobj_f92_i04_d20 1.0",
  "bbob-biobj_f92_i04_d40 1.0",
  "bbob-biobj_f92_i05_d02 1.0",
  "bbob-biobj_f92_i05_d03 1.0",
  "bbob-biobj_f92_i05_d05 1.0",
  "bbob-biobj_f92_i05_d10 1.0",
  "bbob-biobj_f92_i05_d20 1.0",
  "bbob-biobj_f92_i05_d40 1.0",
  "bbob-biobj_f92_i06_d02 1.0",
  "bbob-biobj_f92_i06_d03 1.0",
  "bbob-biobj_f92_i06_d05 1.0",
  "bbob-biobj_f92_i06_d10 1.0",
  "bbob-biobj_f92_i06_d20 1.0",
  "bbob-biobj_f92_i06_d40 1.0",
  "bbob-biobj_f92_i07_d02 1.0",
  "bbob-biobj_f92_i07_d03 1.0",
  "bbob-biobj_f92_i07_d05 1.0",
  "bbob-biobj_f92_i07_d10 1.0",
  "bbob-biobj_f92_i07_d20 1.0",
  "bbob-biobj_f92_i07_d40 1.0",
  "bbob-biobj_f92_i08_d02 1.0",
  "bbob-biobj_f92_i08_d03 1.0",
  "bbob-biobj_f92_i08_d05 1.0",
  "bbob-biobj_f92_i08_d10 1.0",
  "bbob-biobj_f92_i08_d20 1.0",
  "bbob-biobj_f92_i08_d40 1.0",
  "bbob-biobj_f92_i09_d02 1.0",
  "bbob-biobj_f92_i09_d03 1.0",
  "bbob-biobj_f92_i09_d05 1.0",
  "bbob-biobj_f92_i09_d10 1.0",
  "bbob-biobj_f92_i09_d20 1.0",
  "bbob-biobj_f92_i09_d40 1.0",
  "bbob-biobj_f92_i10_d02 1.0",
  "bbob-biobj_f92_i10_d03 1.0",
  "bbob-biobj_f92_i10_d05 1.0",
  "bbob-biobj_f92_i10_d10 1.0",
  "bbob-biobj_f92_i10_d20 1.0",
  "bbob-biobj_f92_i10_d40 1.0",
  "bbob-biobj_f92_i11_d02 1.0",
  "bbob-biobj_f92_i11_d03 1.0",
  "bbob-biobj_f92_i11_d05 1.0",
  "bbob-biobj_f92_i11_d10 1.0",
  "bbob-biobj_f92_i11_d20 1.0",
  "bbob-biobj_f92_i11_d40 1.0",
  "bbob-biobj_f92_i12_d02 1.0",
  "bbob-biobj_f92_i12_d03 1.0",
  "bbob-biobj_f92_i12_d05 1.0",
  "bbob-biobj_f92_i12_d10 1.0",
  "bbob-biobj_f92_i12_d20 1.0",
  "bbob-biobj_f92_i12_d40 1.0",
  "bbob-biobj_f92_i13_d02 1.0",
  "bbob-biobj_f92_i13_d03 1.0",
  "bbob-biobj_f92_i13_d05 1.0",
  "bbob-biobj_f92_i13_d10 1.0",
  "bbob-biobj_f92_i13_d20 1.0",
  "bbob-biobj_f92_i13_d40 1.0",
  "bbob-biobj_f92_i14_d02 1.0",
  "bbob-biobj_f92_i14_d03 1.0",
  "bbob-biobj_f92_i14_d05 1.0",
  "bbob-biobj_f92_i14_d10 1.0",
  "bbob-biobj_f92_i14_d20 1.0",
  "bbob-biobj_f92_i14_d40 1.0",
  "bbob-biobj_f92_i15_d02 1.0",
  "bbob-biobj_f92_i15_d03 1.0",
  "bbob-biobj_f92_i15_d05 1.0",
  "bbob-biobj_f92_i15_d10 1.0",
  "bbob-biobj_f92_i15_d20 1.0",
  "bbob-biobj_f92_i15_d40 1.0"
};
