----------------------------- MODULE ISOTables ------------------------------
(* ISO 4217 (alphabetic code, numeric code, minor unit) of the currencies    *)
(* provided, and ISO 3166-1 (alpha-2, alpha-3, numeric) of every country.    *)
(* Transcribed once and reviewed against the standards; MRO and the other    *)
(* historical codes are the ones the standard listed for them.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES q
Currencies == <<
  <<"AED", "784", 2>>, <<"AFN", "971", 2>>, <<"ALL", "008", 2>>, <<"AMD", "051", 2>>, <<"ANG", "532", 2>>, <<"AOA", "973", 2>>,
  <<"ARS", "032", 2>>, <<"AUD", "036", 2>>, <<"AWG", "533", 2>>, <<"AZN", "944", 2>>, <<"BAM", "977", 2>>, <<"BBD", "052", 2>>,
  <<"BDT", "050", 2>>, <<"BGN", "975", 2>>, <<"BHD", "048", 3>>, <<"BIF", "108", 0>>, <<"BMD", "060", 2>>, <<"BND", "096", 2>>,
  <<"BOB", "068", 2>>, <<"BRL", "986", 2>>, <<"BSD", "044", 2>>, <<"BTN", "064", 2>>, <<"BWP", "072", 2>>, <<"BYN", "933", 2>>,
  <<"BZD", "084", 2>>, <<"CAD", "124", 2>>, <<"CDF", "976", 2>>, <<"CHF", "756", 2>>, <<"CLP", "152", 0>>, <<"CNY", "156", 2>>,
  <<"COP", "170", 2>>, <<"CRC", "188", 2>>, <<"CUC", "931", 2>>, <<"CUP", "192", 2>>, <<"CVE", "132", 2>>, <<"CZK", "203", 2>>,
  <<"DJF", "262", 0>>, <<"DKK", "208", 2>>, <<"DOP", "214", 2>>, <<"DZD", "012", 2>>, <<"EGP", "818", 2>>, <<"ERN", "232", 2>>,
  <<"ETB", "230", 2>>, <<"EUR", "978", 2>>, <<"FJD", "242", 2>>, <<"FKP", "238", 2>>, <<"GBP", "826", 2>>, <<"GEL", "981", 2>>,
  <<"GHS", "936", 2>>, <<"GIP", "292", 2>>, <<"GMD", "270", 2>>, <<"GNF", "324", 0>>, <<"GTQ", "320", 2>>, <<"GYD", "328", 2>>,
  <<"HKD", "344", 2>>, <<"HNL", "340", 2>>, <<"HRK", "191", 2>>, <<"HTG", "332", 2>>, <<"HUF", "348", 2>>, <<"IDR", "360", 2>>,
  <<"ILS", "376", 2>>, <<"INR", "356", 2>>, <<"IQD", "368", 3>>, <<"IRR", "364", 2>>, <<"ISK", "352", 0>>, <<"JMD", "388", 2>>,
  <<"JOD", "400", 3>>, <<"JPY", "392", 0>>, <<"KES", "404", 2>>, <<"KGS", "417", 2>>, <<"KHR", "116", 2>>, <<"KMF", "174", 0>>,
  <<"KPW", "408", 2>>, <<"KRW", "410", 0>>, <<"KWD", "414", 3>>, <<"KYD", "136", 2>>, <<"KZT", "398", 2>>, <<"LAK", "418", 2>>,
  <<"LBP", "422", 2>>, <<"LKR", "144", 2>>, <<"LRD", "430", 2>>, <<"LSL", "426", 2>>, <<"LYD", "434", 3>>, <<"MAD", "504", 2>>,
  <<"MDL", "498", 2>>, <<"MGA", "969", 2>>, <<"MKD", "807", 2>>, <<"MMK", "104", 2>>, <<"MNT", "496", 2>>, <<"MOP", "446", 2>>,
  <<"MRO", "478", 2>>, <<"MUR", "480", 2>>, <<"MVR", "462", 2>>, <<"MWK", "454", 2>>, <<"MXN", "484", 2>>, <<"MYR", "458", 2>>,
  <<"MZN", "943", 2>>, <<"NAD", "516", 2>>, <<"NGN", "566", 2>>, <<"NIO", "558", 2>>, <<"NOK", "578", 2>>, <<"NPR", "524", 2>>,
  <<"NZD", "554", 2>>, <<"OMR", "512", 3>>, <<"PAB", "590", 2>>, <<"PEN", "604", 2>>, <<"PGK", "598", 2>>, <<"PHP", "608", 2>>,
  <<"PKR", "586", 2>>, <<"PLN", "985", 2>>, <<"PYG", "600", 0>>, <<"QAR", "634", 2>>, <<"RON", "946", 2>>, <<"RSD", "941", 2>>,
  <<"RUB", "643", 2>>, <<"RWF", "646", 0>>, <<"SAR", "682", 2>>, <<"SBD", "090", 2>>, <<"SCR", "690", 2>>, <<"SDG", "938", 2>>,
  <<"SEK", "752", 2>>, <<"SGD", "702", 2>>, <<"SHP", "654", 2>>, <<"SLE", "925", 2>>, <<"SLL", "694", 2>>, <<"SOS", "706", 2>>,
  <<"SRD", "968", 2>>, <<"SSP", "728", 2>>, <<"STN", "930", 2>>, <<"SVC", "222", 2>>, <<"SYP", "760", 2>>, <<"SZL", "748", 2>>,
  <<"THB", "764", 2>>, <<"TJS", "972", 2>>, <<"TMT", "934", 2>>, <<"TND", "788", 3>>, <<"TOP", "776", 2>>, <<"TRY", "949", 2>>,
  <<"TTD", "780", 2>>, <<"TWD", "901", 2>>, <<"TZS", "834", 2>>, <<"UAH", "980", 2>>, <<"UGX", "800", 0>>, <<"USD", "840", 2>>,
  <<"UYU", "858", 2>>, <<"UZS", "860", 2>>, <<"VES", "928", 2>>, <<"VND", "704", 0>>, <<"VUV", "548", 0>>, <<"WST", "882", 2>>,
  <<"XAF", "950", 0>>, <<"XCD", "951", 2>>, <<"XOF", "952", 0>>, <<"XPF", "953", 0>>, <<"YER", "886", 2>>, <<"ZAR", "710", 2>>,
  <<"ZMW", "967", 2>>, <<"ZWL", "932", 2>>
>>
Countries == <<
  <<"AD", "AND", "020">>, <<"AE", "ARE", "784">>, <<"AF", "AFG", "004">>, <<"AG", "ATG", "028">>, <<"AI", "AIA", "660">>, <<"AL",
  "ALB", "008">>, <<"AM", "ARM", "051">>, <<"AO", "AGO", "024">>, <<"AQ", "ATA", "010">>, <<"AR", "ARG", "032">>, <<"AS", "ASM",
  "016">>, <<"AT", "AUT", "040">>, <<"AU", "AUS", "036">>, <<"AW", "ABW", "533">>, <<"AX", "ALA", "248">>, <<"AZ", "AZE", "031">>,
  <<"BA", "BIH", "070">>, <<"BB", "BRB", "052">>, <<"BD", "BGD", "050">>, <<"BE", "BEL", "056">>, <<"BF", "BFA", "854">>, <<"BG",
  "BGR", "100">>, <<"BH", "BHR", "048">>, <<"BI", "BDI", "108">>, <<"BJ", "BEN", "204">>, <<"BL", "BLM", "652">>, <<"BM", "BMU",
  "060">>, <<"BN", "BRN", "096">>, <<"BO", "BOL", "068">>, <<"BQ", "BES", "535">>, <<"BR", "BRA", "076">>, <<"BS", "BHS", "044">>,
  <<"BT", "BTN", "064">>, <<"BV", "BVT", "074">>, <<"BW", "BWA", "072">>, <<"BY", "BLR", "112">>, <<"BZ", "BLZ", "084">>, <<"CA",
  "CAN", "124">>, <<"CC", "CCK", "166">>, <<"CD", "COD", "180">>, <<"CF", "CAF", "140">>, <<"CG", "COG", "178">>, <<"CH", "CHE",
  "756">>, <<"CI", "CIV", "384">>, <<"CK", "COK", "184">>, <<"CL", "CHL", "152">>, <<"CM", "CMR", "120">>, <<"CN", "CHN", "156">>,
  <<"CO", "COL", "170">>, <<"CR", "CRI", "188">>, <<"CU", "CUB", "192">>, <<"CV", "CPV", "132">>, <<"CW", "CUW", "531">>, <<"CX",
  "CXR", "162">>, <<"CY", "CYP", "196">>, <<"CZ", "CZE", "203">>, <<"DE", "DEU", "276">>, <<"DJ", "DJI", "262">>, <<"DK", "DNK",
  "208">>, <<"DM", "DMA", "212">>, <<"DO", "DOM", "214">>, <<"DZ", "DZA", "012">>, <<"EC", "ECU", "218">>, <<"EE", "EST", "233">>,
  <<"EG", "EGY", "818">>, <<"EH", "ESH", "732">>, <<"ER", "ERI", "232">>, <<"ES", "ESP", "724">>, <<"ET", "ETH", "231">>, <<"FI",
  "FIN", "246">>, <<"FJ", "FJI", "242">>, <<"FK", "FLK", "238">>, <<"FM", "FSM", "583">>, <<"FO", "FRO", "234">>, <<"FR", "FRA",
  "250">>, <<"GA", "GAB", "266">>, <<"GB", "GBR", "826">>, <<"GD", "GRD", "308">>, <<"GE", "GEO", "268">>, <<"GF", "GUF", "254">>,
  <<"GG", "GGY", "831">>, <<"GH", "GHA", "288">>, <<"GI", "GIB", "292">>, <<"GL", "GRL", "304">>, <<"GM", "GMB", "270">>, <<"GN",
  "GIN", "324">>, <<"GP", "GLP", "312">>, <<"GQ", "GNQ", "226">>, <<"GR", "GRC", "300">>, <<"GS", "SGS", "239">>, <<"GT", "GTM",
  "320">>, <<"GU", "GUM", "316">>, <<"GW", "GNB", "624">>, <<"GY", "GUY", "328">>, <<"HK", "HKG", "344">>, <<"HM", "HMD", "334">>,
  <<"HN", "HND", "340">>, <<"HR", "HRV", "191">>, <<"HT", "HTI", "332">>, <<"HU", "HUN", "348">>, <<"ID", "IDN", "360">>, <<"IE",
  "IRL", "372">>, <<"IL", "ISR", "376">>, <<"IM", "IMN", "833">>, <<"IN", "IND", "356">>, <<"IO", "IOT", "086">>, <<"IQ", "IRQ",
  "368">>, <<"IR", "IRN", "364">>, <<"IS", "ISL", "352">>, <<"IT", "ITA", "380">>, <<"JE", "JEY", "832">>, <<"JM", "JAM", "388">>,
  <<"JO", "JOR", "400">>, <<"JP", "JPN", "392">>, <<"KE", "KEN", "404">>, <<"KG", "KGZ", "417">>, <<"KH", "KHM", "116">>, <<"KI",
  "KIR", "296">>, <<"KM", "COM", "174">>, <<"KN", "KNA", "659">>, <<"KP", "PRK", "408">>, <<"KR", "KOR", "410">>, <<"KW", "KWT",
  "414">>, <<"KY", "CYM", "136">>, <<"KZ", "KAZ", "398">>, <<"LA", "LAO", "418">>, <<"LB", "LBN", "422">>, <<"LC", "LCA", "662">>,
  <<"LI", "LIE", "438">>, <<"LK", "LKA", "144">>, <<"LR", "LBR", "430">>, <<"LS", "LSO", "426">>, <<"LT", "LTU", "440">>, <<"LU",
  "LUX", "442">>, <<"LV", "LVA", "428">>, <<"LY", "LBY", "434">>, <<"MA", "MAR", "504">>, <<"MC", "MCO", "492">>, <<"MD", "MDA",
  "498">>, <<"ME", "MNE", "499">>, <<"MF", "MAF", "663">>, <<"MG", "MDG", "450">>, <<"MH", "MHL", "584">>, <<"MK", "MKD", "807">>,
  <<"ML", "MLI", "466">>, <<"MM", "MMR", "104">>, <<"MN", "MNG", "496">>, <<"MO", "MAC", "446">>, <<"MP", "MNP", "580">>, <<"MQ",
  "MTQ", "474">>, <<"MR", "MRT", "478">>, <<"MS", "MSR", "500">>, <<"MT", "MLT", "470">>, <<"MU", "MUS", "480">>, <<"MV", "MDV",
  "462">>, <<"MW", "MWI", "454">>, <<"MX", "MEX", "484">>, <<"MY", "MYS", "458">>, <<"MZ", "MOZ", "508">>, <<"NA", "NAM", "516">>,
  <<"NC", "NCL", "540">>, <<"NE", "NER", "562">>, <<"NF", "NFK", "574">>, <<"NG", "NGA", "566">>, <<"NI", "NIC", "558">>, <<"NL",
  "NLD", "528">>, <<"NO", "NOR", "578">>, <<"NP", "NPL", "524">>, <<"NR", "NRU", "520">>, <<"NU", "NIU", "570">>, <<"NZ", "NZL",
  "554">>, <<"OM", "OMN", "512">>, <<"PA", "PAN", "591">>, <<"PE", "PER", "604">>, <<"PF", "PYF", "258">>, <<"PG", "PNG", "598">>,
  <<"PH", "PHL", "608">>, <<"PK", "PAK", "586">>, <<"PL", "POL", "616">>, <<"PM", "SPM", "666">>, <<"PN", "PCN", "612">>, <<"PR",
  "PRI", "630">>, <<"PS", "PSE", "275">>, <<"PT", "PRT", "620">>, <<"PW", "PLW", "585">>, <<"PY", "PRY", "600">>, <<"QA", "QAT",
  "634">>, <<"RE", "REU", "638">>, <<"RO", "ROU", "642">>, <<"RS", "SRB", "688">>, <<"RU", "RUS", "643">>, <<"RW", "RWA", "646">>,
  <<"SA", "SAU", "682">>, <<"SB", "SLB", "090">>, <<"SC", "SYC", "690">>, <<"SD", "SDN", "729">>, <<"SE", "SWE", "752">>, <<"SG",
  "SGP", "702">>, <<"SH", "SHN", "654">>, <<"SI", "SVN", "705">>, <<"SJ", "SJM", "744">>, <<"SK", "SVK", "703">>, <<"SL", "SLE",
  "694">>, <<"SM", "SMR", "674">>, <<"SN", "SEN", "686">>, <<"SO", "SOM", "706">>, <<"SR", "SUR", "740">>, <<"SS", "SSD", "728">>,
  <<"ST", "STP", "678">>, <<"SV", "SLV", "222">>, <<"SX", "SXM", "534">>, <<"SY", "SYR", "760">>, <<"SZ", "SWZ", "748">>, <<"TC",
  "TCA", "796">>, <<"TD", "TCD", "148">>, <<"TF", "ATF", "260">>, <<"TG", "TGO", "768">>, <<"TH", "THA", "764">>, <<"TJ", "TJK",
  "762">>, <<"TK", "TKL", "772">>, <<"TL", "TLS", "626">>, <<"TM", "TKM", "795">>, <<"TN", "TUN", "788">>, <<"TO", "TON", "776">>,
  <<"TR", "TUR", "792">>, <<"TT", "TTO", "780">>, <<"TV", "TUV", "798">>, <<"TW", "TWN", "158">>, <<"TZ", "TZA", "834">>, <<"UA",
  "UKR", "804">>, <<"UG", "UGA", "800">>, <<"UM", "UMI", "581">>, <<"US", "USA", "840">>, <<"UY", "URY", "858">>, <<"UZ", "UZB",
  "860">>, <<"VA", "VAT", "336">>, <<"VC", "VCT", "670">>, <<"VE", "VEN", "862">>, <<"VG", "VGB", "092">>, <<"VI", "VIR", "850">>,
  <<"VN", "VNM", "704">>, <<"VU", "VUT", "548">>, <<"WF", "WLF", "876">>, <<"WS", "WSM", "882">>, <<"YE", "YEM", "887">>, <<"YT",
  "MYT", "175">>, <<"ZA", "ZAF", "710">>, <<"ZM", "ZMB", "894">>, <<"ZW", "ZWE", "716">>
>>
Letters == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
Distinct(T, k) == \A i, j \in DOMAIN T : T[i][k] = T[j][k] => i = j
ASSUME \A k \in 1 .. 3 : Distinct(Countries, k)
ASSUME \A k \in 1 .. 2 : Distinct(Currencies, k)
ASSUME Len(Countries) = 249
Row(a) == LET S == {i \in DOMAIN Countries : Countries[i][1] = a} IN IF S = {} THEN <<>> ELSE Countries[CHOOSE i \in S : TRUE]
(* a query: two letters (every pair), or another string that is no alpha-2 code *)
Others == {"", "A", "us", "Us", "uS", "USA", "US ", " US", "840", "GBR", "gb", "ZZZ", "A1", "1A", "--", "Ö", "ÅX", "UK"}
Init == q \in {Letters[i] \o Letters[j] : i, j \in 1 .. 26} \cup Others
Next == UNCHANGED q
Spec == Init /\ [][Next]_q
Emit == PrintT(ToJson([q |-> q, r |-> Row(q)]))
Pow10(n) == CASE n = 0 -> 1 [] n = 2 -> 100 [] n = 3 -> 1000
EmitCurrencies == q # "" \/ PrintT(ToJson([cur |-> [i \in DOMAIN Currencies |->
                   <<Currencies[i][1], Currencies[i][1], Currencies[i][2], Currencies[i][3], Pow10(Currencies[i][3])>>]]))
=============================================================================
