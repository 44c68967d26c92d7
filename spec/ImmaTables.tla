----------------------------- MODULE ImmaTables -----------------------------
(* The fields of an IMMA1 record as the format documents them, per attachment:  *)
(* name, width (0: all that is left), units per 1, and code (1 integer, 2 base  *)
(* 36 digit, 3 characters).                                                      *)
EXTENDS Integers, Sequences
F(n, w, u, c) == [n |-> n, w |-> w, u |-> u, c |-> c]
A00 == <<
  F("YR",4,1,1), F("MO",2,1,1), F("DY",2,1,1), F("HR",4,100,1), F("LAT",5,100,1), F("LON",6,100,1),
  F("IM",2,1,1), F("ATTC",1,1,2), F("TI",1,1,1), F("LI",1,1,1), F("DS",1,1,1), F("VS",1,1,1), F("NID",2,1,1),
  F("II",2,1,1), F("ID",9,1,3), F("C1",2,1,3), F("DI",1,1,1), F("D",3,1,1), F("WI",1,1,1), F("W",3,10,1),
  F("VI",1,1,1), F("VV",2,1,1), F("WW",2,1,1), F("W1",1,1,1), F("SLP",5,10,1), F("A",1,1,1), F("PPP",3,10,1),
  F("IT",1,1,1), F("AT",4,10,1), F("WBTI",1,1,1), F("WBT",4,10,1), F("DPTI",1,1,1), F("DPT",4,10,1),
  F("SI",2,1,1), F("SST",4,10,1), F("N",1,1,1), F("NH",1,1,1), F("CL",1,1,2), F("HI",1,1,1), F("H",1,1,2),
  F("CM",1,1,2), F("CH",1,1,2), F("WD",2,1,1), F("WP",2,1,1), F("WH",2,1,1), F("SD",2,1,1), F("SP",2,1,1),
  F("SH",2,1,1)
  >>
A01 == <<
  F("BSI",1,1,1), F("B10",3,1,1), F("B1",2,1,1), F("DCK",3,1,1), F("SID",3,1,1), F("PT",2,1,1),
  F("DUPS",2,1,1), F("DUPC",1,1,1), F("TC",1,1,1), F("PB",1,1,1), F("WX",1,1,1), F("SX",1,1,1), F("C2",2,1,1),
  F("SQZ",1,1,2), F("SQA",1,1,2), F("AQZ",1,1,2), F("AQA",1,1,2), F("UQZ",1,1,2), F("UQA",1,1,2),
  F("VQZ",1,1,2), F("VQA",1,1,2), F("PQZ",1,1,2), F("PQA",1,1,2), F("DQZ",1,1,2), F("DQA",1,1,2),
  F("ND",1,1,1), F("SF",1,1,2), F("AF",1,1,2), F("UF",1,1,2), F("VF",1,1,2), F("PF",1,1,2), F("RF",1,1,2),
  F("ZNC",1,1,2), F("WNC",1,1,2), F("BNC",1,1,2), F("XNC",1,1,2), F("YNC",1,1,2), F("PNC",1,1,2),
  F("ANC",1,1,2), F("GNC",1,1,2), F("DNC",1,1,2), F("SNC",1,1,2), F("CNC",1,1,2), F("ENC",1,1,2),
  F("FNC",1,1,2), F("TNC",1,1,2), F("QCE",2,1,1), F("LZ",1,1,1), F("QCZ",2,1,1)
  >>
A02 == <<
  F("OS",1,1,1), F("OP",1,1,1), F("FM",2,1,1), F("IX",1,1,1), F("W2",1,1,1), F("SGN",1,1,1), F("SGT",1,1,2),
  F("SGH",2,1,1), F("WMI",1,1,1), F("SD2",2,1,1), F("SP2",2,1,1), F("SH2",2,1,1), F("IS",1,1,1),
  F("ES",2,1,1), F("RS",1,1,1), F("IC1",1,1,2), F("IC2",1,1,2), F("IC3",1,1,2), F("IC4",1,1,2),
  F("IC5",1,1,2), F("IR",1,1,1), F("RRR",3,1,1), F("TR",1,1,1), F("QCI",1,1,1), F("QI1",1,1,1),
  F("QI2",1,1,1), F("QI3",1,1,1), F("QI4",1,1,1), F("QI5",1,1,1), F("QI6",1,1,1), F("QI7",1,1,1),
  F("QI8",1,1,1), F("QI9",1,1,1), F("QI10",1,1,1), F("QI11",1,1,1), F("QI12",1,1,1), F("QI13",1,1,1),
  F("QI14",1,1,1), F("QI15",1,1,1), F("QI16",1,1,1), F("QI17",1,1,1), F("QI18",1,1,1), F("QI19",1,1,1),
  F("QI20",1,1,1), F("QI21",1,1,1), F("HDG",3,1,1), F("COG",3,1,1), F("SOG",2,1,1), F("SLL",2,1,1),
  F("SLHH",3,1,1), F("RWD",3,1,1), F("RWS",3,10,1)
  >>
A03 == <<
  F("CCCC",4,1,3), F("BUID",6,1,3), F("BMP",5,10,1), F("BSWU",4,10,1), F("SWU",4,10,1), F("BSWV",4,10,1),
  F("SWV",4,10,1), F("BSAT",4,10,1), F("BSRH",3,1,1), F("SRH",3,1,1), F("SIX",1,1,1), F("BSST",4,10,1),
  F("MST",1,1,1), F("MSH",3,1,1), F("BY",4,1,1), F("BM",2,1,1), F("BD",2,1,1), F("BH",2,1,1), F("BFL",2,1,1)
  >>
A04 == <<
  F("C1M",2,1,3), F("OPM",2,1,1), F("KOV",2,1,3), F("COR",2,1,3), F("TOB",3,1,3), F("TOT",3,1,3),
  F("EOT",2,1,3), F("LOT",2,1,3), F("TOH",1,1,3), F("EOH",2,1,3), F("SIM",3,1,3), F("LOV",3,1,1),
  F("DOS",2,1,1), F("HOP",3,1,1), F("HOT",3,1,1), F("HOB",3,1,1), F("HOA",3,1,1), F("SMF",5,1,1),
  F("SME",5,1,1), F("SMV",2,1,1)
  >>
A05 == <<
  F("OS",1,1,1), F("OP",1,1,1), F("FM",1,1,2), F("IMMV",1,1,2), F("IX",1,1,1), F("W2",1,1,1), F("WMI",1,1,1),
  F("SD2",2,1,1), F("SP2",2,1,1), F("SH2",2,1,1), F("IS",1,1,1), F("ES",2,1,1), F("RS",1,1,1), F("IC1",1,1,2),
  F("IC2",1,1,2), F("IC3",1,1,2), F("IC4",1,1,2), F("IC5",1,1,2), F("IR",1,1,1), F("RRR",3,1,1),
  F("TR",1,1,1), F("NU",1,1,3), F("QCI",1,1,1), F("QI1",1,1,1), F("QI2",1,1,1), F("QI3",1,1,1),
  F("QI4",1,1,1), F("QI5",1,1,1), F("QI6",1,1,1), F("QI7",1,1,1), F("QI8",1,1,1), F("QI9",1,1,1),
  F("QI10",1,1,1), F("QI11",1,1,1), F("QI12",1,1,1), F("QI13",1,1,1), F("QI14",1,1,1), F("QI15",1,1,1),
  F("QI16",1,1,1), F("QI17",1,1,1), F("QI18",1,1,1), F("QI19",1,1,1), F("QI20",1,1,1), F("QI21",1,1,1),
  F("HDG",3,1,1), F("COG",3,1,1), F("SOG",2,1,1), F("SLL",2,1,1), F("SLHH",3,1,1), F("RWD",3,1,1),
  F("RWS",3,10,1), F("QI22",1,1,1), F("QI23",1,1,1), F("QI24",1,1,1), F("QI25",1,1,1), F("QI26",1,1,1),
  F("QI27",1,1,1), F("QI28",1,1,1), F("QI29",1,1,1), F("RH",4,10,1), F("RHI",1,1,1), F("AWSI",1,1,1),
  F("IMONO",7,1,1)
  >>
A06 == <<
  F("CCCC",4,1,3), F("BUID",6,1,3), F("FBSRC",1,1,1), F("BMP",5,10,1), F("BSWU",4,10,1), F("SWU",4,10,1),
  F("BSWV",4,10,1), F("SWV",4,10,1), F("BSAT",4,10,1), F("BSRH",3,1,1), F("SRH",3,1,1), F("BSST",5,10,1),
  F("MST",1,1,1), F("MSH",4,1,1), F("BY",4,1,1), F("BM",2,1,1), F("BD",2,1,1), F("BH",2,1,1), F("BFL",2,1,1)
  >>
A07 == <<
  F("MDS",1,1,1), F("C1M",2,1,3), F("OPM",2,1,1), F("KOV",2,1,3), F("COR",2,1,3), F("TOB",3,1,3),
  F("TOT",3,1,3), F("EOT",2,1,3), F("LOT",2,1,3), F("TOH",1,1,3), F("EOH",2,1,3), F("SIM",3,1,3),
  F("LOV",3,1,1), F("DOS",2,1,1), F("HOP",3,1,1), F("HOT",3,1,1), F("HOB",3,1,1), F("HOA",3,1,1),
  F("SMF",5,1,1), F("SME",5,1,1), F("SMV",2,1,1)
  >>
A08 == <<
  F("OTV",5,1000,1), F("OTZ",4,100,1), F("OSV",5,1000,1), F("OSZ",4,100,1), F("OOV",4,100,1),
  F("OOZ",4,100,1), F("OPV",4,100,1), F("OPZ",4,100,1), F("OSIV",5,100,1), F("OSIZ",4,100,1),
  F("ONV",5,100,1), F("ONZ",4,100,1), F("OPHV",3,100,1), F("OPHZ",4,100,1), F("OCV",4,100,1),
  F("OCZ",4,100,1), F("OAV",3,100,1), F("OAZ",4,100,1), F("OPCV",4,10,1), F("OPCZ",4,100,1), F("ODV",2,10,1),
  F("ODZ",4,100,1), F("PUID",10,1,3)
  >>
A09 == <<
  F("CCe",1,1,2), F("WWe",2,1,1), F("Ne",1,1,1), F("NHe",1,1,1), F("He",1,1,1), F("CLe",2,1,1),
  F("CMe",2,1,1), F("CHe",1,1,1), F("AM",3,100,1), F("AH",3,100,1), F("UM",1,1,1), F("UH",1,1,1),
  F("SBI",1,1,1), F("SA",4,10,1), F("RI",4,100,1)
  >>
A95 == <<
  F("ICNR",2,1,1), F("FNR",2,1,1), F("DPRO",2,1,1), F("DPRP",2,1,1), F("UFR",1,1,1), F("MFGR",7,1,1),
  F("MFGSR",7,1,1), F("MAR",7,1,1), F("MASR",7,1,1), F("BCR",7,1,1), F("ARCR",4,1,3), F("CDR",8,1,1),
  F("ASIR",1,1,1)
  >>
A96 == <<
  F("ICNI",2,1,1), F("FNI",2,1,1), F("JVAD",1,1,2), F("VAD",6,1,1), F("IVAU1",1,1,2), F("JVAU1",1,1,2),
  F("VAU1",6,1,1), F("IVAU2",1,1,2), F("JVAU2",1,1,2), F("VAU2",6,1,1), F("IVAU3",1,1,2), F("JVAU3",1,1,2),
  F("VAU3",6,1,1), F("VQC",1,1,1), F("ARCI",4,1,3), F("CDI",8,1,1), F("ASII",1,1,1)
  >>
A97 == <<
  F("ICNE",2,1,1), F("FNE",2,1,1), F("CEF",1,1,1), F("ERRD",10,1,1), F("ARCE",4,1,3), F("CDE",8,1,1),
  F("ASIE",1,1,1)
  >>
A98 == <<
  F("UID",6,1,3), F("RN1",1,1,2), F("RN2",1,1,2), F("RN3",1,1,2), F("RSA",1,1,1), F("IRF",1,1,1)
  >>
A99 == <<
  F("ATTE",1,1,1), F("SUPD",0,1,3)
  >>
Numbers == {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 95, 96, 97, 98, 99}
Table(a) == CASE a = 0 -> A00
              [] a = 1 -> A01
              [] a = 2 -> A02
              [] a = 3 -> A03
              [] a = 4 -> A04
              [] a = 5 -> A05
              [] a = 6 -> A06
              [] a = 7 -> A07
              [] a = 8 -> A08
              [] a = 9 -> A09
              [] a = 95 -> A95
              [] a = 96 -> A96
              [] a = 97 -> A97
              [] a = 98 -> A98
              [] a = 99 -> A99
=============================================================================
