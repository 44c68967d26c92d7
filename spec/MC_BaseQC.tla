------------------------------ MODULE MC_BaseQC -------------------------------
(* Histories of runs and field changes on one report.                          *)
EXTENDS BaseQC, TLC, Json
CONSTANTS Depth
VARIABLE hist
mv == <<f, fl, hist>>
G0 == [ID |-> "AA", DCK |-> 701, PT |-> 5, YR |-> 1855, MO |-> 6, DY |-> 15, HR |-> NoVal, LAT |-> 1000, LON |-> 2000,
       SST |-> 80, AT |-> 96, DPT |-> 88, SLP |-> 8080, W |-> 40, D |-> 361, SHU |-> 64, CRH |-> 640, DAT |-> 96]
N0 == [SST |-> 84, AT |-> 90, DPT |-> 80, DPTsd |-> 8, AT2 |-> 90, AT2sd |-> 8, SLP |-> 8100, SLPsd |-> 40, DAT |-> 100]
P0 == [SST |-> [fp |-> -14, n |-> 16, max |-> 64, hard |-> <<-40, 360>>], AT |-> [max |-> 80, hard |-> <<-640, 520>>, minmax |-> <<8, 32>>, maxsd |-> 44],
       DPT |-> [minmax |-> <<8, 32>>, maxsd |-> 44, hard |-> <<-640, 520>>], SHU |-> [hard |-> <<0, 320>>], RH |-> [hard |-> <<0, 1200>>],
       SLP |-> [maxsd |-> 24, low |-> 80], W |-> [hard |-> <<0, 400>>, var |-> 40], DAT |-> [max |-> 80, hard |-> <<-640, 520>>]]
Runs == {"full", "wind", "sst", "slp", "dat"}
Changes == {<<"DCK", 780>>, <<"HR", 2880>>, <<"SST", -100>>, <<"AT", NoVal>>, <<"CRH", NoVal>>, <<"D", 0>>, <<"LAT", 9900>>}
MInit == BInit(G0) /\ hist = <<>>
MNext == /\ Len(hist) < Depth
         /\ \/ \E r \in Runs : Run(r, N0, P0, 0) /\ hist' = Append(hist, <<"run", r, 0>>)
            \/ \E c \in Changes : Change(c[1], c[2]) /\ hist' = Append(hist, <<"set", c[1], c[2]>>)
MSpec == MInit /\ [][MNext]_mv
Emit == Len(hist) = Depth => PrintT("BEH base " \o ToJson(hist))
LastRun(h) == h[Len(h)]
(* a second run of the same kind changes nothing *)
Idempotent == [][Len(hist) > 0 /\ hist' # hist /\ hist[Len(hist)][1] = "run" /\ hist'[Len(hist')] = hist[Len(hist)]
                 => f' = f /\ fl' = fl]_mv
(* a run for one variable agrees with the full run on what it sets *)
Agree == \A r \in Runs \ {"full", "dat"} : SetBy(r) \subseteq SetBy("full")
OnlyHour == [][hist' # hist /\ hist'[Len(hist')][1] = "run" => \A n \in DOMAIN f : n # "HR" => f'[n] = f[n]]_mv
DayWhenBad == \A x \in {"POS.pos", "POS.date", "POS.time"} : (Len(hist) > 0 /\ hist[Len(hist)] = <<"run", "full", 0>> /\ fl[x] = 1) => fl["POS.day"] = 1
FlagValues == \A x \in FlagNames : fl[x] \in {0, 1, 9}
=============================================================================
