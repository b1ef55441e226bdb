// generated by tools/extract_vocab.py
use sneturfahi::lex::Selmaho as S;
pub const SELMAHO: &[(S, &str, &str, bool)] = &[
	(S::A, "A", "A", false),
	(S::Bai, "Bai", "BAI", false),
	(S::Bahe, "Bahe", "BAhE", false),
	(S::Be, "Be", "BE", false),
	(S::Bei, "Bei", "BEI", false),
	(S::Beho, "Beho", "BEhO", false),
	(S::Bihe, "Bihe", "BIhE", false),
	(S::Bihi, "Bihi", "BIhI", false),
	(S::Bo, "Bo", "BO", false),
	(S::Boi, "Boi", "BOI", false),
	(S::Bu, "Bu", "BU", false),
	(S::By, "By", "BY", false),
	(S::Cai, "Cai", "CAI", false),
	(S::Caha, "Caha", "CAhA", false),
	(S::Cei, "Cei", "CEI", false),
	(S::Cehe, "Cehe", "CEhE", false),
	(S::Co, "Co", "CO", false),
	(S::Coi, "Coi", "COI", false),
	(S::Cu, "Cu", "CU", false),
	(S::Cuhe, "Cuhe", "CUhE", false),
	(S::Daho, "Daho", "DAhO", false),
	(S::Doi, "Doi", "DOI", false),
	(S::Dohu, "Dohu", "DOhU", false),
	(S::Fa, "Fa", "FA", false),
	(S::Faha, "Faha", "FAhA", false),
	(S::Faho, "Faho", "FAhO", false),
	(S::Fehe, "Fehe", "FEhE", false),
	(S::Fehu, "Fehu", "FEhU", false),
	(S::Fiho, "Fiho", "FIhO", false),
	(S::Foi, "Foi", "FOI", false),
	(S::Fuha, "Fuha", "FUhA", false),
	(S::Fuhe, "Fuhe", "FUhE", false),
	(S::Fuho, "Fuho", "FUhO", false),
	(S::Ga, "Ga", "GA", false),
	(S::Gaho, "Gaho", "GAhO", false),
	(S::Gehu, "Gehu", "GEhU", false),
	(S::Gi, "Gi", "GI", false),
	(S::Giha, "Giha", "GIhA", false),
	(S::Goi, "Goi", "GOI", false),
	(S::Goha, "Goha", "GOhA", false),
	(S::Guha, "Guha", "GUhA", false),
	(S::I, "I", "I", false),
	(S::Ja, "Ja", "JA", false),
	(S::Jai, "Jai", "JAI", false),
	(S::Joi, "Joi", "JOI", false),
	(S::Johi, "Johi", "JOhI", false),
	(S::Ke, "Ke", "KE", false),
	(S::Kei, "Kei", "KEI", false),
	(S::Kehe, "Kehe", "KEhE", false),
	(S::Ki, "Ki", "KI", false),
	(S::Koha, "Koha", "KOhA", false),
	(S::Ku, "Ku", "KU", false),
	(S::Kuhe, "Kuhe", "KUhE", false),
	(S::Kuho, "Kuho", "KUhO", false),
	(S::La, "La", "LA", false),
	(S::Lau, "Lau", "LAU", false),
	(S::Lahe, "Lahe", "LAhE", false),
	(S::Le, "Le", "LE", false),
	(S::Lehu, "Lehu", "LEhU", false),
	(S::Li, "Li", "LI", false),
	(S::Lihu, "Lihu", "LIhU", false),
	(S::Loho, "Loho", "LOhO", false),
	(S::Lohu, "Lohu", "LOhU", false),
	(S::Lu, "Lu", "LU", false),
	(S::Luhu, "Luhu", "LUhU", false),
	(S::Mai, "Mai", "MAI", false),
	(S::Maho, "Maho", "MAhO", false),
	(S::Me, "Me", "ME", false),
	(S::Mehu, "Mehu", "MEhU", false),
	(S::Moi, "Moi", "MOI", false),
	(S::Mohe, "Mohe", "MOhE", false),
	(S::Mohi, "Mohi", "MOhI", false),
	(S::Na, "Na", "NA", false),
	(S::Nai, "Nai", "NAI", false),
	(S::Nahe, "Nahe", "NAhE", false),
	(S::Nahu, "Nahu", "NAhU", false),
	(S::Nihe, "Nihe", "NIhE", false),
	(S::Niho, "Niho", "NIhO", false),
	(S::Noi, "Noi", "NOI", false),
	(S::Nu, "Nu", "NU", false),
	(S::Nuha, "Nuha", "NUhA", false),
	(S::Nuhi, "Nuhi", "NUhI", false),
	(S::Nuhu, "Nuhu", "NUhU", false),
	(S::Pa, "Pa", "PA", false),
	(S::Pehe, "Pehe", "PEhE", false),
	(S::Peho, "Peho", "PEhO", false),
	(S::Pu, "Pu", "PU", false),
	(S::Raho, "Raho", "RAhO", false),
	(S::Roi, "Roi", "ROI", false),
	(S::Sa, "Sa", "SA", false),
	(S::Se, "Se", "SE", false),
	(S::Sei, "Sei", "SEI", false),
	(S::Sehu, "Sehu", "SEhU", false),
	(S::Si, "Si", "SI", false),
	(S::Soi, "Soi", "SOI", false),
	(S::Su, "Su", "SU", false),
	(S::Tahe, "Tahe", "TAhE", false),
	(S::Tei, "Tei", "TEI", false),
	(S::Tehu, "Tehu", "TEhU", false),
	(S::To, "To", "TO", false),
	(S::Toi, "Toi", "TOI", false),
	(S::Tuhe, "Tuhe", "TUhE", false),
	(S::Tuhu, "Tuhu", "TUhU", false),
	(S::Ui, "Ui", "UI", false),
	(S::Va, "Va", "VA", false),
	(S::Vau, "Vau", "VAU", false),
	(S::Vei, "Vei", "VEI", false),
	(S::Veha, "Veha", "VEhA", false),
	(S::Veho, "Veho", "VEhO", false),
	(S::Viha, "Viha", "VIhA", false),
	(S::Vuho, "Vuho", "VUhO", false),
	(S::Vuhu, "Vuhu", "VUhU", false),
	(S::Xi, "Xi", "XI", false),
	(S::Y, "Y", "Y", false),
	(S::Zaho, "Zaho", "ZAhO", false),
	(S::Zei, "Zei", "ZEI", false),
	(S::Zeha, "Zeha", "ZEhA", false),
	(S::Zi, "Zi", "ZI", false),
	(S::Zihe, "Zihe", "ZIhE", false),
	(S::Zo, "Zo", "ZO", false),
	(S::Zoi, "Zoi", "ZOI", false),
	(S::Zohu, "Zohu", "ZOhU", false),
	(S::Bahei, "Bahei", "BAhEI", true),
	(S::Beihe, "Beihe", "BEIhE", true),
	(S::Boihoi, "Boihoi", "BOIhOI", true),
	(S::Boihohu, "Boihohu", "BOIhOhU", true),
	(S::Cahei, "Cahei", "CAhEI", true),
	(S::Ceheihoi, "Ceheihoi", "CEhEIhOI", true),
	(S::Cohai, "Cohai", "COhAI", true),
	(S::Cohehohe, "Cohehohe", "COhEhOhE", true),
	(S::Cohuho, "Cohuho", "COhUhO", true),
	(S::Cuhau, "Cuhau", "CUhAU", true),
	(S::Dauho, "Dauho", "DAUhO", true),
	(S::Dehai, "Dehai", "DEhAI", true),
	(S::Dehau, "Dehau", "DEhAU", true),
	(S::Dohoi, "Dohoi", "DOhOI", true),
	(S::Fauha, "Fauha", "FAUhA", true),
	(S::Fahoho, "Fahoho", "FAhOhO", true),
	(S::Fihoi, "Fihoi", "FIhOI", true),
	(S::Foihe, "Foihe", "FOIhE", true),
	(S::Gahuhau, "Gahuhau", "GAhUhAU", true),
	(S::Gehuhi, "Gehuhi", "GEhUhI", true),
	(S::Gihei, "Gihei", "GIhEI", true),
	(S::Gihoi, "Gihoi", "GIhOI", true),
	(S::Gohoi, "Gohoi", "GOhOI", true),
	(S::Ihau, "Ihau", "IhAU", true),
	(S::Jaiha, "Jaiha", "JAIhA", true),
	(S::Jaihi, "Jaihi", "JAIhI", true),
	(S::Jauhu, "Jauhu", "JAUhU", true),
	(S::Jahoi, "Jahoi", "JAhOI", true),
	(S::Jihoi, "Jihoi", "JIhOI", true),
	(S::Joihi, "Joihi", "JOIhI", true),
	(S::Johe, "Johe", "JOhE", true),
	(S::Juhau, "Juhau", "JUhAU", true),
	(S::Juhei, "Juhei", "JUhEI", true),
	(S::Juhuhi, "Juhuhi", "JUhUhI", true),
	(S::Kauhai, "Kauhai", "KAUhAI", true),
	(S::Kauhu, "Kauhu", "KAUhU", true),
	(S::Keihau, "Keihau", "KEIhAU", true),
	(S::Keihi, "Keihi", "KEIhI", true),
	(S::Kehai, "Kehai", "KEhAI", true),
	(S::Kehei, "Kehei", "KEhEI", true),
	(S::Keheiha, "Keheiha", "KEhEIhA", true),
	(S::Kehehau, "Kehehau", "KEhEhAU", true),
	(S::Kehehu, "Kehehu", "KEhEhU", true),
	(S::Kehuhi, "Kehuhi", "KEhUhI", true),
	(S::Kuhau, "Kuhau", "KUhAU", true),
	(S::Kuhei, "Kuhei", "KUhEI", true),
	(S::Kuhoihu, "Kuhoihu", "KUhOIhU", true),
	(S::Kyhoi, "Kyhoi", "KYhOI", true),
	(S::Lehai, "Lehai", "LEhAI", true),
	(S::Lihau, "Lihau", "LIhAU", true),
	(S::Lihei, "Lihei", "LIhEI", true),
	(S::Lohai, "Lohai", "LOhAI", true),
	(S::Lohoi, "Lohoi", "LOhOI", true),
	(S::Luhei, "Luhei", "LUhEI", true),
	(S::Mauhau, "Mauhau", "MAUhAU", true),
	(S::Mauhe, "Mauhe", "MAUhE", true),
	(S::Mauho, "Mauho", "MAUhO", true),
	(S::Meihe, "Meihe", "MEIhE", true),
	(S::Meiho, "Meiho", "MEIhO", true),
	(S::Mehoi, "Mehoi", "MEhOI", true),
	(S::Muhoi, "Muhoi", "MUhOI", true),
	(S::Muhohu, "Muhohu", "MUhOhU", true),
	(S::Neihai, "Neihai", "NEIhAI", true),
	(S::Noiha, "Noiha", "NOIhA", true),
	(S::Noihau, "Noihau", "NOIhAU", true),
	(S::Noihahu, "Noihahu", "NOIhAhU", true),
	(S::Noihi, "Noihi", "NOIhI", true),
	(S::Nohoi, "Nohoi", "NOhOI", true),
	(S::Rauho, "Rauho", "RAUhO", true),
	(S::Rehaihe, "Rehaihe", "REhAIhE", true),
	(S::Sauhu, "Sauhu", "SAUhU", true),
	(S::Sahau, "Sahau", "SAhAU", true),
	(S::Sahoi, "Sahoi", "SAhOI", true),
	(S::Seihau, "Seihau", "SEIhAU", true),
	(S::Seiho, "Seiho", "SEIhO", true),
	(S::Sehehi, "Sehehi", "SEhEhI", true),
	(S::Sehoihoi, "Sehoihoi", "SEhOIhOI", true),
	(S::Sihihei, "Sihihei", "SIhIhEI", true),
	(S::Sihihoi, "Sihihoi", "SIhIhOI", true),
	(S::Sihoi, "Sihoi", "SIhOI", true),
	(S::Soihi, "Soihi", "SOIhI", true),
	(S::Sohehai, "Sohehai", "SOhEhAI", true),
	(S::Sohoi, "Sohoi", "SOhOI", true),
	(S::Taihu, "Taihu", "TAIhU", true),
	(S::Tauho, "Tauho", "TAUhO", true),
	(S::Tahoi, "Tahoi", "TAhOI", true),
	(S::Tahuhi, "Tahuhi", "TAhUhI", true),
	(S::Teihu, "Teihu", "TEIhU", true),
	(S::Tehoihoi, "Tehoihoi", "TEhOIhOI", true),
	(S::Toihe, "Toihe", "TOIhE", true),
	(S::Toiho, "Toiho", "TOIhO", true),
	(S::Vauhehoi, "Vauhehoi", "VAUhEhOI", true),
	(S::Vauhohoi, "Vauhohoi", "VAUhOhOI", true),
	(S::Vuhoi, "Vuhoi", "VUhOI", true),
	(S::Vyhy, "Vyhy", "VYhY", true),
	(S::Xauhe, "Xauhe", "XAUhE", true),
	(S::Xauheho, "Xauheho", "XAUhEhO", true),
	(S::Xauho, "Xauho", "XAUhO", true),
	(S::Xauhoi, "Xauhoi", "XAUhOI", true),
	(S::Xauhoho, "Xauhoho", "XAUhOhO", true),
	(S::Xahoihahoiha, "Xahoihahoiha", "XAhOIhAhOIhA", true),
	(S::Xehau, "Xehau", "XEhAU", true),
	(S::Xoi, "Xoi", "XOI", true),
	(S::Xoha, "Xoha", "XOhA", true),
	(S::Xohehohe, "Xohehohe", "XOhEhOhE", true),
	(S::Xohi, "Xohi", "XOhI", true),
	(S::Xuhau, "Xuhau", "XUhAU", true),
	(S::Yhi, "Yhi", "YhI", true),
	(S::Zaihai, "Zaihai", "ZAIhAI", true),
	(S::Zaihu, "Zaihu", "ZAIhU", true),
	(S::Zauhehu, "Zauhehu", "ZAUhEhU", true),
	(S::Zeihei, "Zeihei", "ZEIhEI", true),
	(S::Zeihoi, "Zeihoi", "ZEIhOI", true),
	(S::Ziheha, "Ziheha", "ZIhEhA", true),
	(S::Zihehau, "Zihehau", "ZIhEhAU", true),
	(S::Zihoi, "Zihoi", "ZIhOI", true),
	(S::Zoihai, "Zoihai", "ZOIhAI", true),
	(S::Zoihohe, "Zoihohe", "ZOIhOhE", true),
	(S::Zohau, "Zohau", "ZOhAU", true),
	(S::Zohehu, "Zohehu", "ZOhEhU", true),
	(S::Zohiho, "Zohiho", "ZOhIhO", true),
	(S::Zohoi, "Zohoi", "ZOhOI", true),
	(S::Gismu, "Gismu", "gismu", false),
	(S::Fuhivla, "Fuhivla", "fuhivla", false),
	(S::Lujvo, "Lujvo", "lujvo", false),
	(S::Cmevla, "Cmevla", "cmevla", false),
	(S::UnknownCmavo, "UnknownCmavo", "(unknown cmavo)", true),
	(S::AnyText, "AnyText", "(any text)", false),
	(S::ZoiDelimiter, "ZoiDelimiter", "(zoi delimiter)", false),
];
