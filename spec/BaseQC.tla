------------------------------- MODULE BaseQC --------------------------------
(* The base quality control of one report: which flags each run sets, and     *)
(* from which field, norm, deviation and limit.  State: the fields, norms and *)
(* flags of the report.  A flag that was never set reads 9.                   *)
(* Positions in hundredths of a degree, hours in 1/120, other values in 1/8.  *)
EXTENDS Calendar
BC == INSTANCE BasicChecks
BL == INSTANCE Blacklist
VC == INSTANCE ValueChecks
NoVal == -99999
VARIABLES f,      \* fields
          fl      \* flags: [name -> value]
bvars == <<f, fl>>
Unset == 9
FlagNames == {"POS.isbuoy", "POS.isdrifter", "POS.isship", "POS.is780", "POS.pos", "POS.date", "POS.time", "POS.blklst", "POS.day",
  "DPT.hum_blacklist", "AT.mat_blacklist", "W.wind_blacklist",
  "SST.noval", "SST.freez", "SST.clim", "SST.nonorm", "SST.hardlimit", "AT.noval", "AT.clim", "AT.nonorm", "AT.hardlimit",
  "DPT.clim", "DPT.noval", "DPT.nonorm", "DPT.ssat", "DPT.hardlimit", "SLP.noval", "SLP.clim", "SLP.nonorm",
  "W.noval", "W.hardlimit", "W.consistency", "AT2.clim", "AT2.noval", "AT2.nonorm", "AT2.hardlimit",
  "DAT.noval", "DAT.clim", "DAT.nonorm", "DAT.hardlimit"}
Common == {"POS.isbuoy", "POS.isdrifter", "POS.isship", "POS.pos", "POS.date", "POS.time", "POS.blklst"}
\* the flags each run sets
SSTFlags == {"SST.noval", "SST.freez", "SST.clim", "SST.nonorm", "SST.hardlimit"}
SLPFlags == {"SLP.noval", "SLP.clim", "SLP.nonorm"}
WFlags == {"W.noval", "W.hardlimit", "W.consistency"}
DATFlags == {"DAT.noval", "DAT.clim", "DAT.nonorm", "DAT.hardlimit"}
SetBy(run) ==
  CASE run = "full" -> FlagNames \ DATFlags
    [] run = "wind" -> Common \cup {"W.wind_blacklist"} \cup WFlags
    [] run = "sst"  -> Common \cup {"POS.is780", "POS.day"} \cup SSTFlags
    [] run = "slp"  -> Common \cup {"POS.is780", "POS.day"} \cup SLPFlags
    [] run = "dat"  -> Common \cup {"AT.mat_blacklist", "POS.day"} \cup DATFlags

Src(g) == [id |-> g.ID, dck |-> g.DCK, yr |-> g.YR, mo |-> g.MO, lat |-> g.LAT, lon |-> g.LON, pt |-> g.PT]
When(g) == [lat |-> g.LAT, lon |-> g.LON, yr |-> g.YR, mo |-> g.MO, dy |-> g.DY, hr |-> g.HR]
Out(v, lim) == VC!HardLimit(v, lim[1], lim[2]) = 1

(* n: norms, p: parameters, day: the day test of the report *)
Flag(x, g, n, p, day) ==
  CASE x = "POS.isbuoy" -> BL!B(BL!IsBuoy(Src(g)))
    [] x = "POS.isdrifter" -> BL!B(BL!IsDrifter(Src(g)))
    [] x = "POS.isship" -> BL!B(BL!IsShip(Src(g)))
    [] x = "POS.is780" -> BL!B(BL!Is780(Src(g)))
    [] x = "POS.pos" -> BC!PositionFlag(g.LAT, g.LON)
    [] x = "POS.date" -> BC!DateFlag(g.YR, g.MO, g.DY)
    [] x = "POS.time" -> BC!TimeFlag(g.HR)
    [] x = "POS.blklst" -> BL!B(BL!Blacklisted(Src(g)))
    [] x = "POS.day" -> IF BC!AnyBad(When(g)) THEN 1 ELSE day
    [] x = "DPT.hum_blacklist" -> BL!B(BL!HumidityExcluded(Src(g)))
    [] x = "AT.mat_blacklist" -> BL!B(BL!MatExcluded(Src(g)))
    [] x = "W.wind_blacklist" -> BL!B(BL!WindExcluded(Src(g)))
    [] x = "SST.noval" -> VC!NoValue(g.SST)
    [] x = "SST.freez" -> VC!Freeze(g.SST, 0, p.SST.fp, p.SST.n)
    [] x = "SST.clim" -> VC!Clim(g.SST, n.SST, p.SST.max)
    [] x = "SST.nonorm" -> VC!NoNorm(n.SST)
    [] x = "SST.hardlimit" -> VC!HardLimit(g.SST, p.SST.hard[1], p.SST.hard[2])
    [] x = "AT.noval" -> VC!NoValue(g.AT)
    [] x = "AT.clim" -> VC!Clim(g.AT, n.AT, p.AT.max)
    [] x = "AT.nonorm" -> VC!NoNorm(n.AT)
    [] x = "AT.hardlimit" -> VC!HardLimit(g.AT, p.AT.hard[1], p.AT.hard[2])
    [] x = "AT2.clim" -> VC!ClimStd(g.AT, n.AT2, n.AT2sd, p.AT.minmax[1], p.AT.minmax[2], p.AT.maxsd)
    [] x = "AT2.noval" -> VC!NoValue(g.AT)
    [] x = "AT2.nonorm" -> VC!NoNorm(n.AT2)
    [] x = "AT2.hardlimit" -> VC!HardLimit(g.AT, p.AT.hard[1], p.AT.hard[2])
    [] x = "DPT.clim" -> VC!ClimStd(g.DPT, n.DPT, n.DPTsd, p.DPT.minmax[1], p.DPT.minmax[2], p.DPT.maxsd)
    [] x = "DPT.noval" -> VC!NoValue(g.DPT)
    [] x = "DPT.nonorm" -> VC!NoNorm(n.DPT)
    [] x = "DPT.ssat" -> VC!SuperSat(g.DPT, g.AT)
    [] x = "DPT.hardlimit" -> VC!B(Out(g.AT, p.AT.hard) \/ Out(g.DPT, p.DPT.hard) \/ Out(g.SHU, p.SHU.hard) \/ Out(g.CRH, p.RH.hard))
    [] x = "SLP.noval" -> VC!NoValue(g.SLP)
    [] x = "SLP.clim" -> VC!ClimLow(g.SLP, n.SLP, n.SLPsd, p.SLP.maxsd, p.SLP.low)
    [] x = "SLP.nonorm" -> VC!NoNorm(n.SLP)
    [] x = "W.noval" -> VC!NoValue(g.W)
    [] x = "W.hardlimit" -> VC!HardLimit(g.W, p.W.hard[1], p.W.hard[2])
    [] x = "W.consistency" -> VC!WindFlag(g.W, g.D, p.W.var)
    [] x = "DAT.noval" -> VC!NoValue(g.DAT)
    [] x = "DAT.clim" -> VC!Clim(g.DAT, n.DAT, p.DAT.max)
    [] x = "DAT.nonorm" -> VC!NoNorm(n.DAT)
    [] x = "DAT.hardlimit" -> VC!HardLimit(g.DAT, p.DAT.hard[1], p.DAT.hard[2])

Mended(g) == IF g.DCK = 701 /\ g.YR < 1860 /\ g.HR = NoVal THEN [g EXCEPT !.HR = 0] ELSE g
BInit(g) == f = g /\ fl = [x \in FlagNames |-> Unset]
Run(run, n, p, day) ==
  /\ f' = Mended(f)
  /\ fl' = [x \in FlagNames |-> IF x \in SetBy(run) THEN Flag(x, f', n, p, day) ELSE fl[x]]
Change(name, v) == f' = [f EXCEPT ![name] = v] /\ fl' = fl
=============================================================================
