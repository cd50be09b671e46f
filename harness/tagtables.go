package main

// Language and script tag tables, transcribed from
// https://learn.microsoft.com/en-us/typography/opentype/spec/name (Macintosh
// and Windows language IDs) and from the OpenType script and language system
// tag registries.

var refMacLang = map[int]string{
	0:   "en",
	1:   "fr",
	2:   "de",
	3:   "it",
	4:   "nl",
	5:   "sv",
	6:   "es",
	7:   "da",
	8:   "pt",
	9:   "nb",
	10:  "he",
	11:  "ja",
	12:  "ar",
	13:  "fi",
	14:  "el",
	15:  "is",
	16:  "mt",
	17:  "tr",
	18:  "hr",
	19:  "zh-Hant",
	20:  "ur",
	21:  "hi",
	22:  "th",
	23:  "ko",
	24:  "lt",
	25:  "pl",
	26:  "hu",
	27:  "et",
	28:  "lv",
	29:  "se",
	30:  "fo",
	31:  "fa",
	32:  "ru",
	33:  "zh-Hans",
	34:  "nl-BE",
	35:  "ga",
	36:  "sq",
	37:  "ro",
	38:  "cs",
	39:  "sk",
	40:  "sl",
	41:  "yi",
	42:  "sr",
	43:  "mk",
	44:  "bg",
	45:  "uk",
	46:  "be",
	47:  "uz",
	48:  "kk",
	49:  "az-Cyrl",
	50:  "az-Arab",
	51:  "hy",
	52:  "ka",
	53:  "mo",
	54:  "ky",
	55:  "tg",
	56:  "tk-Cyrl",
	57:  "mn-Mong",
	58:  "mn",
	59:  "ps",
	60:  "ku",
	61:  "ks",
	62:  "sd",
	63:  "bo",
	64:  "ne",
	65:  "sa",
	66:  "mr",
	67:  "bn",
	68:  "as",
	69:  "gu",
	70:  "pa",
	71:  "or",
	72:  "ml",
	73:  "kn",
	74:  "ta",
	75:  "te",
	76:  "si",
	77:  "my",
	78:  "km",
	79:  "lo",
	80:  "vi",
	81:  "id",
	82:  "fil",
	83:  "ms",
	84:  "ms-Arab",
	85:  "am",
	86:  "ti",
	87:  "om",
	88:  "so",
	89:  "sw",
	90:  "rw",
	91:  "rn",
	92:  "ny",
	93:  "mg",
	94:  "eo",
	128: "cy",
	129: "eu",
	130: "ca",
	131: "la",
	132: "qu",
	133: "gn",
	134: "ay",
	135: "tt-Cyrl",
	136: "ug",
	137: "dz",
	138: "jv",
	139: "su",
	140: "gl",
	141: "af",
	142: "br",
	143: "iu",
	144: "gd",
	145: "gv",
	146: "ga-Latg",
	147: "to",
	148: "grc",
	149: "kl",
	150: "az",
}

var refWinLang = map[int]string{
	0x0436: "af-ZA",
	0x041c: "sq-AL",
	0x0484: "gsw-FR",
	0x045e: "am-ET",
	0x1401: "ar-DZ",
	0x3c01: "ar-BH",
	0x0c01: "ar-EG",
	0x0801: "ar-IQ",
	0x2c01: "ar-JO",
	0x3401: "ar-KW",
	0x3001: "ar-LB",
	0x1001: "ar-LY",
	0x1801: "ar-MA",
	0x2001: "ar-OM",
	0x4001: "ar-QA",
	0x0401: "ar-SA",
	0x2801: "ar-SY",
	0x1c01: "ar-TN",
	0x3801: "ar-AE",
	0x2401: "ar-YE",
	0x042b: "hy-AM",
	0x044d: "as-IN",
	0x082c: "az-Cyrl-AZ",
	0x042c: "az-Latn-AZ",
	0x046d: "ba-RU",
	0x042d: "eu-ES",
	0x0423: "be-BY",
	0x0845: "bn-BD",
	0x0445: "bn-IN",
	0x201a: "bs-Cyrl-BA",
	0x141a: "bs-Latn-BA",
	0x047e: "br-FR",
	0x0402: "bg-BG",
	0x0403: "ca-ES",
	0x0c04: "zh-HK",
	0x1404: "zh-MO",
	0x0804: "zh-CN",
	0x1004: "zh-SG",
	0x0404: "zh-TW",
	0x0483: "co-FR",
	0x041a: "hr-HR",
	0x101a: "hr-BA",
	0x0405: "cs-CZ",
	0x0406: "da-DK",
	0x048c: "fa-AF",
	0x0465: "dv-MV",
	0x0813: "nl-BE",
	0x0413: "nl-NL",
	0x0c09: "en-AU",
	0x2809: "en-BZ",
	0x1009: "en-CA",
	0x2409: "en-029",
	0x4009: "en-IN",
	0x1809: "en-IE",
	0x2009: "en-JM",
	0x4409: "en-MY",
	0x1409: "en-NZ",
	0x3409: "en-PH",
	0x4809: "en-SG",
	0x1c09: "en-ZA",
	0x2c09: "en-TT",
	0x0809: "en-GB",
	0x0409: "en-US",
	0x3009: "en-ZW",
	0x0425: "et-EE",
	0x0438: "fo-FO",
	0x0464: "fil-PH",
	0x040b: "fi-FI",
	0x080c: "fr-BE",
	0x0c0c: "fr-CA",
	0x040c: "fr-FR",
	0x140c: "fr-LU",
	0x180c: "fr-MC",
	0x100c: "fr-CH",
	0x0462: "fy-NL",
	0x0456: "gl-ES",
	0x0437: "ka-GE",
	0x0c07: "de-AT",
	0x0407: "de-DE",
	0x1407: "de-LI",
	0x1007: "de-LU",
	0x0807: "de-CH",
	0x0408: "el-GR",
	0x046f: "kl-GL",
	0x0447: "gu-IN",
	0x0468: "ha-Latn-NG",
	0x040d: "he-IL",
	0x0439: "hi-IN",
	0x040e: "hu-HU",
	0x040f: "is-IS",
	0x0470: "ig-NG",
	0x0421: "id-ID",
	0x045d: "iu-Cans-CA",
	0x085d: "iu-Latn-CA",
	0x083c: "ga-IE",
	0x0434: "xh-ZA",
	0x0435: "zu-ZA",
	0x0410: "it-IT",
	0x0810: "it-CH",
	0x0411: "ja-JP",
	0x044b: "kn-IN",
	0x043f: "kk-KZ",
	0x0453: "km-KH",
	0x0486: "quc-GT",
	0x0487: "rw-RW",
	0x0441: "sw-KE",
	0x0457: "kok-IN",
	0x0412: "ko-KR",
	0x0440: "ky-KG",
	0x0454: "lo-LA",
	0x0426: "lv-LV",
	0x0427: "lt-LT",
	0x082e: "dsb-DE",
	0x046e: "lb-LU",
	0x042f: "mk-MK",
	0x083e: "ms-BN",
	0x043e: "ms-MY",
	0x044c: "ml-IN",
	0x043a: "mt-MT",
	0x0481: "mi-NZ",
	0x047a: "arn-CL",
	0x044e: "mr-IN",
	0x047c: "moh",
	0x0450: "mn-Cyrl-MN",
	0x0850: "mn-Mong-CN",
	0x0461: "ne-NP",
	0x0414: "nb-NO",
	0x0814: "nn-NO",
	0x0482: "oc-FR",
	0x0448: "or-IN",
	0x0463: "ps-AF",
	0x0415: "pl-PL",
	0x0416: "pt-BR",
	0x0816: "pt-PT",
	0x0446: "pa-IN",
	0x046b: "quz-BO",
	0x086b: "quz-EC",
	0x0c6b: "quz-PE",
	0x0418: "ro-RO",
	0x0417: "rm-CH",
	0x0419: "ru-RU",
	0x243b: "smn-FI",
	0x103b: "smj-NO",
	0x143b: "smj-SE",
	0x0c3b: "se-FI",
	0x043b: "se-NO",
	0x083b: "se-SE",
	0x203b: "sms-FI",
	0x183b: "sma-NO",
	0x1c3b: "sma-SE",
	0x044f: "sa-IN",
	0x1c1a: "sr-Cyrl-BA",
	0x0c1a: "sr-Cyrl-CS",
	0x181a: "sr-Latn-BA",
	0x081a: "sr-Latn-CS",
	0x046c: "nso-ZA",
	0x0432: "tn-ZA",
	0x045b: "si-LK",
	0x041b: "sk-SK",
	0x0424: "sl-SI",
	0x2c0a: "es-AR",
	0x400a: "es-BO",
	0x340a: "es-CL",
	0x240a: "es-CO",
	0x140a: "es-CR",
	0x1c0a: "es-DO",
	0x300a: "es-EC",
	0x440a: "es-SV",
	0x100a: "es-GT",
	0x480a: "es-HN",
	0x080a: "es-MX",
	0x4c0a: "es-NI",
	0x180a: "es-PA",
	0x3c0a: "es-PY",
	0x280a: "es-PE",
	0x500a: "es-PR",
	0x0c0a: "es-ES",
	0x040a: "es-ES",
	0x540a: "es-US",
	0x380a: "es-UY",
	0x200a: "es-VE",
	0x081d: "sv-FI",
	0x041d: "sv-SE",
	0x045a: "syr-SY",
	0x0428: "tg-Cyrl-TJ",
	0x085f: "tzm-Latn-DZ",
	0x0449: "ta-IN",
	0x0444: "tt-RU",
	0x044a: "te-IN",
	0x041e: "th-TH",
	0x0451: "bo-CN",
	0x041f: "tr-TR",
	0x0442: "tk-TM",
	0x0480: "ug-Arab-CN",
	0x0422: "uk-UA",
	0x042e: "hsb-DE",
	0x0420: "ur-PK",
	0x0843: "uz-Cyrl-UZ",
	0x0443: "uz-Latn-UZ",
	0x042a: "vi-VN",
	0x0452: "cy-GB",
	0x0488: "wo-SN",
	0x0485: "sah-RU",
	0x0478: "ii-CN",
	0x046a: "yo-NG",
}

var refScripts = map[string]string{
	"DFLT": "Zzzz",
	"adlm": "Adlm",
	"ahom": "Ahom",
	"hluw": "Hluw",
	"arab": "Arab",
	"armn": "Armn",
	"avst": "Avst",
	"bali": "Bali",
	"bamu": "Bamu",
	"bass": "Bass",
	"batk": "Batk",
	"beng": "Beng",
	"bng2": "Beng",
	"bhks": "Bhks",
	"bopo": "Bopo",
	"brah": "Brah",
	"brai": "Brai",
	"bugi": "Bugi",
	"buhd": "Buhd",
	"cans": "Cans",
	"cari": "Cari",
	"aghb": "Aghb",
	"cakm": "Cakm",
	"cham": "Cham",
	"cher": "Cher",
	"chrs": "Chrs",
	"hani": "Hani",
	"copt": "Copt",
	"cprt": "Cprt",
	"cpmn": "Cpmn",
	"cyrl": "Cyrl",
	"dsrt": "Dsrt",
	"deva": "Deva",
	"dev2": "Deva",
	"diak": "Diak",
	"dogr": "Dogr",
	"dupl": "Dupl",
	"egyp": "Egyp",
	"elba": "Elba",
	"elym": "Elym",
	"ethi": "Ethi",
	"geor": "Geor",
	"glag": "Glag",
	"goth": "Goth",
	"gran": "Gran",
	"grek": "Grek",
	"gujr": "Gujr",
	"gjr2": "Gujr",
	"gong": "Gong",
	"guru": "Guru",
	"gur2": "Guru",
	"hang": "Hang",
	"jamo": "Jamo",
	"rohg": "Rohg",
	"hano": "Hano",
	"hatr": "Hatr",
	"hebr": "Hebr",
	"armi": "Armi",
	"phli": "Phli",
	"prti": "Prti",
	"kana": "Hrkt",
	"java": "Java",
	"kthi": "Kthi",
	"knda": "Knda",
	"knd2": "Knda",
	"kali": "Kali",
	"khar": "Khar",
	"kits": "Kits",
	"khmr": "Khmr",
	"khoj": "Khoj",
	"sind": "Sind",
	"lao ": "Laoo",
	"latn": "Latn",
	"lepc": "Lepc",
	"limb": "Limb",
	"lina": "Lina",
	"linb": "Linb",
	"lisu": "Lisu",
	"lyci": "Lyci",
	"lydi": "Lydi",
	"mahj": "Mahj",
	"maka": "Maka",
	"mlym": "Mlym",
	"mlm2": "Mlym",
	"mand": "Mand",
	"mani": "Mani",
	"marc": "Marc",
	"gonm": "Gonm",
	"medf": "Medf",
	"mtei": "Mtei",
	"mend": "Mend",
	"merc": "Merc",
	"mero": "Mero",
	"plrd": "Plrd",
	"modi": "Modi",
	"mong": "Mong",
	"mroo": "Mroo",
	"mult": "Mult",
	"mymr": "Mymr",
	"mym2": "Mymr",
	"nbat": "Nbat",
	"nand": "Nand",
	"newa": "Newa",
	"talu": "Talu",
	"nko ": "Nkoo",
	"nshu": "Nshu",
	"hmnp": "Hmnp",
	"orya": "Orya",
	"ory2": "Orya",
	"ogam": "Ogam",
	"olck": "Olck",
	"ital": "Ital",
	"hung": "Hung",
	"narb": "Narb",
	"perm": "Perm",
	"xpeo": "Xpeo",
	"sogo": "Sogo",
	"sarb": "Sarb",
	"orkh": "Orkh",
	"osge": "Osge",
	"osma": "Osma",
	"hmng": "Hmng",
	"palm": "Palm",
	"pauc": "Pauc",
	"phag": "Phag",
	"phnx": "Phnx",
	"phlp": "Phlp",
	"rjng": "Rjng",
	"runr": "Runr",
	"samr": "Samr",
	"saur": "Saur",
	"shrd": "Shrd",
	"shaw": "Shaw",
	"sidd": "Sidd",
	"sgnw": "Sgnw",
	"sinh": "Sinh",
	"sogd": "Sogd",
	"sora": "Sora",
	"soyo": "Soyo",
	"xsux": "Xsux",
	"sund": "Sund",
	"sylo": "Sylo",
	"syrc": "Syrc",
	"tglg": "Tglg",
	"tagb": "Tagb",
	"tale": "Tale",
	"lana": "Lana",
	"tavt": "Tavt",
	"takr": "Takr",
	"taml": "Taml",
	"tml2": "Taml",
	"tang": "Tang",
	"telu": "Telu",
	"tel2": "Telu",
	"thaa": "Thaa",
	"thai": "Thai",
	"tibt": "Tibt",
	"tfng": "Tfng",
	"tirh": "Tirh",
	"toto": "Toto",
	"ugar": "Ugar",
	"vai ": "Vaii",
	"wcho": "Wcho",
	"wara": "Wara",
	"yezi": "Yezi",
	"yi  ": "Yiii",
	"zanb": "Zanb",
}

var refLangs = map[string]string{
	"ABA ": "abq",
	"ABK ": "ab",
	"ACH ": "ach",
	"ACR ": "acr",
	"ADY ": "ady",
	"AFK ": "af",
	"AFR ": "aa",
	"AGW ": "ahg",
	"AIO ": "aio",
	"AKA ": "ak",
	"AKB ": "akb",
	"ALS ": "gsw",
	"ALT ": "tut",
	"AMH ": "am",
	"ANG ": "ang",
	"ARA ": "ar",
	"ARG ": "an",
	"ARI ": "aiw",
	"ARK ": "rki",
	"ASM ": "as",
	"AST ": "ast",
	"ATH ": "ath",
	"AVN ": "avn",
	"AVR ": "av",
	"AWA ": "awa",
	"AYM ": "ay",
	"AZB ": "azb",
	"AZE ": "az",
	"BAD ": "bfq",
	"BAD0": "bad",
	"BAG ": "bfy",
	"BAL ": "krc",
	"BAN ": "ban",
	"BAR ": "bar",
	"BAU ": "bci",
	"BBC ": "bbc",
	"BBR ": "ber",
	"BCH ": "bcq",
	"BDY ": "bdy",
	"BEL ": "be",
	"BEM ": "bem",
	"BEN ": "bn",
	"BGC ": "bgc",
	"BGQ ": "bgq",
	"BGR ": "bg",
	"BHI ": "bhb",
	"BHO ": "bho",
	"BIK ": "bik",
	"BIL ": "byn",
	"BIS ": "bi",
	"BJJ ": "bjj",
	"BKF ": "bla",
	"BLI ": "bal",
	"BLK ": "blk",
	"BLN ": "ble",
	"BLT ": "bft",
	"BMB ": "bm",
	"BML ": "bai",
	"BOS ": "bs",
	"BPY ": "bpy",
	"BRE ": "br",
	"BRH ": "brh",
	"BRI ": "bra",
	"BRM ": "my",
	"BRX ": "brx",
	"BSH ": "ba",
	"BSK ": "bsk",
	"BTD ": "btd",
	"BTI ": "btb",
	"BTK ": "btk",
	"BTM ": "btm",
	"BTS ": "bts",
	"BTX ": "btx",
	"BTZ ": "btz",
	"BUG ": "bug",
	"BYV ": "byv",
	"CAK ": "cak",
	"CAT ": "ca",
	"CBK ": "cbk",
	"CEB ": "ceb",
	"CGG ": "cgg",
	"CHA ": "ch",
	"CHE ": "ce",
	"CHG ": "sgw",
	"CHH ": "hne",
	"CHI ": "ny",
	"CHK ": "ckt",
	"CHK0": "chk",
	"CHO ": "cho",
	"CHP ": "chp",
	"CHR ": "chr",
	"CHU ": "cv",
	"CHY ": "chy",
	"CJA ": "cja",
	"CJM ": "cjm",
	"COP ": "cop",
	"COR ": "kw",
	"COS ": "co",
	"CPP ": "crp",
	"CRE ": "cr",
	"CRR ": "crx",
	"CRT ": "crh",
	"CSB ": "csb",
	"CSL ": "cu",
	"CSY ": "cs",
	"CTG ": "ctg",
	"CTT ": "ctt",
	"CUK ": "cuk",
	"DAG ": "dag",
	"DAN ": "da",
	"DAR ": "dar",
	"DAX ": "dax",
	"DCR ": "cwd",
	"DEU ": "de",
	"DGO ": "dgo",
	"DGR ": "doi",
	"DHG ": "dhg",
	"DHV ": "dv",
	"DIQ ": "diq",
	"DIV ": "dv",
	"DJR ": "dje",
	"DJR0": "djr",
	"DNG ": "ada",
	"DNJ ": "dnj",
	"DNK ": "din",
	"DRI ": "prs",
	"DUJ ": "dwu",
	"DUN ": "dng",
	"DZN ": "dz",
	"EBI ": "igb",
	"EDO ": "bin",
	"EFI ": "efi",
	"ELL ": "el",
	"EMK ": "emk",
	"ENG ": "en",
	"ERZ ": "myv",
	"ESP ": "es",
	"ESU ": "esu",
	"ETI ": "et",
	"EUQ ": "eu",
	"EVK ": "evn",
	"EVN ": "eve",
	"EWE ": "ee",
	"FAN ": "acf",
	"FAN0": "fan",
	"FAR ": "fa",
	"FAT ": "fat",
	"FIN ": "fi",
	"FJI ": "fj",
	"FLE ": "nl",
	"FMP ": "fmp",
	"FNE ": "enf",
	"FON ": "fon",
	"FOS ": "fo",
	"FRA ": "fr",
	"FRC ": "frc",
	"FRI ": "fy",
	"FRL ": "fur",
	"FRP ": "frp",
	"FTA ": "fuf",
	"FUL ": "ff",
	"FUV ": "fuv",
	"GAD ": "gaa",
	"GAE ": "gd",
	"GAG ": "gag",
	"GAL ": "gl",
	"GAW ": "gbm",
	"GEZ ": "gez",
	"GIH ": "gih",
	"GIL ": "niv",
	"GIL0": "gil",
	"GKP ": "gkp",
	"GLK ": "glk",
	"GMZ ": "guk",
	"GNN ": "gnn",
	"GOG ": "gog",
	"GON ": "gon",
	"GRN ": "kl",
	"GRO ": "grt",
	"GUA ": "gn",
	"GUC ": "guc",
	"GUF ": "guf",
	"GUJ ": "gu",
	"GUZ ": "guz",
	"HAI ": "ht",
	"HAI0": "hai",
	"HAL ": "cfm",
	"HAR ": "hoj",
	"HAU ": "ha",
	"HAW ": "haw",
	"HAY ": "hay",
	"HAZ ": "haz",
	"HBN ": "amf",
	"HEI ": "hei",
	"HER ": "hz",
	"HIL ": "hil",
	"HIN ": "hi",
	"HMA ": "mrj",
	"HMD ": "hmd",
	"HMN ": "hmn",
	"HMO ": "ho",
	"HMZ ": "hmz",
	"HND ": "lah",
	"HO  ": "hoc",
	"HRI ": "har",
	"HRV ": "hr",
	"HUN ": "hu",
	"HYE ": "hy",
	"HYE0": "hy",
	"IBA ": "iba",
	"IBB ": "ibb",
	"IBO ": "ig",
	"IDO ": "io",
	"IJO ": "ijo",
	"ILE ": "ie",
	"ILO ": "ilo",
	"INA ": "ia",
	"IND ": "id",
	"ING ": "inh",
	"INU ": "iu",
	"INUK": "iu",
	"IPK ": "ik",
	"IRI ": "ga",
	"IRT ": "ga",
	"IRU ": "iru",
	"ISL ": "is",
	"ISM ": "smn",
	"ITA ": "it",
	"IWR ": "he",
	"JAM ": "jam",
	"JAN ": "ja",
	"JAV ": "jv",
	"JBO ": "jbo",
	"JCT ": "jct",
	"JII ": "yi",
	"JUD ": "lad",
	"JUL ": "dyu",
	"KAB ": "kbd",
	"KAB0": "kab",
	"KAC ": "kfr",
	"KAL ": "kln",
	"KAN ": "kn",
	"KAR ": "krc",
	"KAT ": "ka",
	"KAW ": "kaw",
	"KAZ ": "kk",
	"KDE ": "kde",
	"KEA ": "kea",
	"KEB ": "ktb",
	"KEK ": "kek",
	"KGE ": "ka",
	"KHA ": "kjh",
	"KHK ": "kca",
	"KHM ": "km",
	"KHS ": "kca",
	"KHT ": "kht",
	"KHV ": "kca",
	"KHW ": "khw",
	"KIK ": "ki",
	"KIR ": "ky",
	"KIU ": "kiu",
	"KJD ": "kjd",
	"KJP ": "kjp",
	"KJZ ": "kjz",
	"KKN ": "kex",
	"KLM ": "xal",
	"KMB ": "kam",
	"KMN ": "kfy",
	"KMO ": "kmw",
	"KMS ": "kxc",
	"KMZ ": "kmz",
	"KNR ": "kr",
	"KOD ": "kfa",
	"KOH ": "okm",
	"KOK ": "kok",
	"KOM ": "kv",
	"KON ": "ktu",
	"KON0": "kg",
	"KOP ": "koi",
	"KOR ": "ko",
	"KOS ": "kos",
	"KOZ ": "kpv",
	"KPL ": "kpe",
	"KRI ": "kri",
	"KRK ": "kaa",
	"KRL ": "krl",
	"KRM ": "kdr",
	"KRN ": "kar",
	"KRT ": "kqy",
	"KSH ": "ks",
	"KSH0": "ksh",
	"KSI ": "kha",
	"KSM ": "sjd",
	"KSW ": "ksw",
	"KUA ": "kj",
	"KUI ": "uki",
	"KUL ": "kfx",
	"KUM ": "kum",
	"KUR ": "ku",
	"KUU ": "kru",
	"KUY ": "kdt",
	"KWK ": "kwk",
	"KYK ": "kpy",
	"KYU ": "kyu",
	"LAD ": "lld",
	"LAH ": "bfu",
	"LAK ": "lbe",
	"LAM ": "lmn",
	"LAO ": "lo",
	"LAT ": "la",
	"LAZ ": "lzz",
	"LCR ": "crm",
	"LDK ": "lbj",
	"LEF ": "lef",
	"LEZ ": "lez",
	"LIJ ": "lij",
	"LIM ": "li",
	"LIN ": "ln",
	"LIS ": "lis",
	"LJP ": "ljp",
	"LKI ": "lki",
	"LMA ": "mhr",
	"LMB ": "lif",
	"LMO ": "lmo",
	"LMW ": "ngl",
	"LOM ": "lom",
	"LPO ": "lpo",
	"LRC ": "ldd",
	"LSB ": "dsb",
	"LSM ": "smj",
	"LTH ": "lt",
	"LTZ ": "lb",
	"LUA ": "lua",
	"LUB ": "lu",
	"LUG ": "lg",
	"LUH ": "luy",
	"LUO ": "luo",
	"LVI ": "lv",
	"MAD ": "mad",
	"MAG ": "mag",
	"MAH ": "mh",
	"MAJ ": "mpe",
	"MAK ": "vmw",
	"MAL ": "ml",
	"MAM ": "mam",
	"MAN ": "mns",
	"MAP ": "arn",
	"MAR ": "mr",
	"MAW ": "mwr",
	"MBN ": "kmb",
	"MBO ": "mbo",
	"MCH ": "mnc",
	"MCR ": "crm",
	"MDE ": "men",
	"MDR ": "mdr",
	"MEN ": "mym",
	"MER ": "mer",
	"MFA ": "mfa",
	"MFE ": "mfe",
	"MIN ": "min",
	"MIZ ": "lus",
	"MKD ": "mk",
	"MKR ": "mak",
	"MKW ": "mkw",
	"MLE ": "mdy",
	"MLG ": "mg",
	"MLN ": "mlq",
	"MLR ": "ml",
	"MLY ": "ms",
	"MND ": "mnk",
	"MNG ": "mn",
	"MNI ": "mni",
	"MNK ": "man",
	"MNX ": "gv",
	"MOH ": "moh",
	"MOK ": "mdf",
	"MOL ": "ro",
	"MON ": "mnw",
	"MONT": "mnw",
	"MOS ": "mos",
	"MRI ": "mi",
	"MTH ": "mai",
	"MTS ": "mt",
	"MUN ": "unr",
	"MUS ": "mus",
	"MWL ": "mwl",
	"MWW ": "mww",
	"MYN ": "myn",
	"MZN ": "mzn",
	"NAG ": "nag",
	"NAH ": "nah",
	"NAN ": "gld",
	"NAP ": "nap",
	"NAS ": "nsk",
	"NAU ": "na",
	"NAV ": "nv",
	"NCR ": "csw",
	"NDC ": "ndc",
	"NDG ": "ng",
	"NDS ": "nds",
	"NEP ": "ne",
	"NEW ": "new",
	"NGA ": "nga",
	"NHC ": "csw",
	"NIS ": "dap",
	"NIU ": "niu",
	"NKL ": "nyn",
	"NKO ": "nqo",
	"NLD ": "nl",
	"NOE ": "noe",
	"NOG ": "nog",
	"NOR ": "no",
	"NOV ": "nov",
	"NSM ": "se",
	"NSO ": "nso",
	"NTA ": "nod",
	"NTO ": "eo",
	"NYM ": "nym",
	"NYN ": "nn",
	"NZA ": "nza",
	"OCI ": "oc",
	"OCR ": "ojs",
	"OJB ": "oj",
	"ORI ": "or",
	"ORO ": "om",
	"OSS ": "os",
	"PAA ": "sam",
	"PAG ": "pag",
	"PAL ": "pi",
	"PAM ": "pam",
	"PAN ": "pa",
	"PAP ": "plp",
	"PAP0": "pap",
	"PAS ": "ps",
	"PAU ": "pau",
	"PCC ": "pcc",
	"PCD ": "pcd",
	"PDC ": "pdc",
	"PGR ": "el-polyton",
	"PHK ": "phk",
	"PIH ": "pih",
	"PIL ": "fil",
	"PLK ": "pl",
	"PMS ": "pms",
	"PNB ": "pnb",
	"POH ": "poh",
	"PON ": "pon",
	"PRO ": "pro",
	"PTG ": "pt",
	"PWO ": "pwo",
	"QUC ": "quc",
	"QUH ": "quh",
	"QUZ ": "qu",
	"QVI ": "qvi",
	"QWH ": "qwh",
	"RAJ ": "raj",
	"RAR ": "rar",
	"RBU ": "bxr",
	"RCR ": "atj",
	"REJ ": "rej",
	"RIA ": "ria",
	"RHG ": "rhg",
	"RIF ": "rif",
	"RIT ": "rit",
	"RKW ": "rkw",
	"RMS ": "rm",
	"RMY ": "rmy",
	"ROM ": "ro",
	"ROY ": "rom",
	"RSY ": "rue",
	"RTM ": "rtm",
	"RUA ": "rw",
	"RUN ": "rn",
	"RUP ": "rup",
	"RUS ": "ru",
	"SAD ": "sck",
	"SAN ": "sa",
	"SAS ": "sas",
	"SAT ": "sat",
	"SAY ": "chp",
	"SCN ": "scn",
	"SCO ": "sco",
	"SCS ": "scs",
	"SEK ": "xan",
	"SEL ": "sel",
	"SFM ": "sfm",
	"SGA ": "sga",
	"SGO ": "sg",
	"SGS ": "sgs",
	"SHI ": "shi",
	"SHN ": "shn",
	"SIB ": "nco",
	"SID ": "sid",
	"SIG ": "stv",
	"SKS ": "sms",
	"SKY ": "sk",
	"SLA ": "den",
	"SLV ": "sl",
	"SML ": "so",
	"SMO ": "sm",
	"SNA ": "seh",
	"SNA0": "sn",
	"SND ": "sd",
	"SNH ": "si",
	"SNK ": "snk",
	"SOG ": "gru",
	"SOP ": "sop",
	"SOT ": "st",
	"SQI ": "sq",
	"SRB ": "sr",
	"SRD ": "sc",
	"SRK ": "skr",
	"SRR ": "srr",
	"SSL ": "xsl",
	"SSM ": "sma",
	"STQ ": "stq",
	"SUK ": "suk",
	"SUN ": "su",
	"SUR ": "suq",
	"SVA ": "sva",
	"SVE ": "sv",
	"SWA ": "aii",
	"SWK ": "sw",
	"SWZ ": "ss",
	"SXT ": "ngo",
	"SXU ": "sxu",
	"SYL ": "syl",
	"SYR ": "syr",
	"SYRE": "syr-Syre",
	"SYRJ": "syr-Syrj",
	"SYRN": "syr-Syrn",
	"SZL ": "szl",
	"TAB ": "tab",
	"TAJ ": "tg",
	"TAM ": "ta",
	"TAT ": "tt",
	"TCR ": "cwd",
	"TDD ": "tdd",
	"TEL ": "te",
	"TET ": "tet",
	"TGL ": "fil",
	"TGN ": "to",
	"TGR ": "tig",
	"TGY ": "ti",
	"THA ": "th",
	"THT ": "ty",
	"TIB ": "bo",
	"TIV ": "tiv",
	"TJL ": "tjl",
	"TKM ": "tk",
	"TLI ": "tli",
	"TMH ": "tmh",
	"TMN ": "tem",
	"TNA ": "tn",
	"TNE ": "enh",
	"TNG ": "toi",
	"TOD ": "xal",
	"TOD0": "tod",
	"TPI ": "tpi",
	"TRK ": "tr",
	"TSG ": "ts",
	"TSJ ": "tsj",
	"TUA ": "tru",
	"TUL ": "tum",
	"TUM ": "tcy",
	"TUV ": "tyv",
	"TVL ": "tvl",
	"TWI ": "tw",
	"TYZ ": "tyz",
	"TZM ": "tzm",
	"TZO ": "tzo",
	"UDM ": "udm",
	"UKR ": "uk",
	"UMB ": "umb",
	"URD ": "ur",
	"USB ": "hsb",
	"UYG ": "ug",
	"UZB ": "uz",
	"VEC ": "vec",
	"VEN ": "ve",
	"VIT ": "vi",
	"VOL ": "vo",
	"VRO ": "vro",
	"WA  ": "wbm",
	"WAG ": "wbr",
	"WAR ": "war",
	"WCI ": "wci",
	"WCR ": "crk",
	"WEL ": "cy",
	"WLF ": "wo",
	"WLN ": "wa",
	"WTM ": "wtm",
	"XBD ": "khb",
	"XHS ": "xh",
	"XJB ": "xjb",
	"XKF ": "xkf",
	"XOG ": "xog",
	"XPE ": "xpe",
	"XUB ": "xub",
	"XUJ ": "xuj",
	"YAK ": "sah",
	"YAO ": "yao",
	"YAP ": "yap",
	"YBA ": "yo",
	"YCR ": "cr",
	"YGP ": "ygp",
	"YIM ": "ii",
	"YNA ": "yna",
	"YWQ ": "ywq",
	"ZEA ": "zea",
	"ZGH ": "zgh",
	"ZHA ": "za",
	"ZHH ": "zh-Hant-HK",
	"ZHP ": "zh",
	"ZHS ": "zh-Hans",
	"ZHT ": "zh-Hant",
	"ZHTM": "zh-Hant-MO",
	"ZND ": "znd",
	"ZUL ": "zu",
	"ZZA ": "zza",
}
