---------------------------- MODULE MC_ReportStore ----------------------------
EXTENDS ReportStore, TLC, Json
CONSTANTS Depth
VARIABLE hist
R == << [ID |-> 1, UID |-> 1, YR |-> 7872, AT |-> 40, DPT |-> 40, LAT |-> 4, LON |-> 1000, DS |-> 8, VS |-> 8],
        [ID |-> 1, UID |-> 2, YR |-> 7868, AT |-> 40, LAT |-> 4, LON |-> 720, DS |-> 36, VS |-> 4] >>
U == 1..2
Ops == [op : {"set"}, via : {"rep"}, u : U, n : {"AT", "DS"}, v : {Missing, 4}]
  \cup [op : {"set"}, via : {"voy"}, u : {2}, n : {"DPT", "RH", "VS"}, v : {40}]
  \cup [op : {"ext"}, u : U, n : {"dsi", "AT"}, v : {20}]
  \cup [op : {"norm"}, u : {1}, n : {"AT", "RH"}, c : {12, Missing}, s : {8}]
  \cup [op : {"norm"}, u : {2}, n : {"AT"}, c : {12}, s : {Missing}]
  \cup [op : {"half"}, u : U, n : {"AT"}, h : {"clim", "stdev"}, v : {16}]
  \cup [op : {"half"}, u : {1}, n : {"AT"}, h : {"other"}, v : {16}]
  \cup [op : {"reset"}, u : U]
Do(o) == CASE o.op = "set" -> SetVar(o.u, o.n, o.v)
           [] o.op = "ext" -> SetExt(o.u, o.n, o.v)
           [] o.op = "norm" -> SetNorm(o.u, o.n, o.c, o.s)
           [] o.op = "half" -> SetHalf(o.u, o.n, o.h, o.v)
           [] o.op = "reset" -> Reset(o.u)
MInit == SInit(R) /\ hist = <<>>
MNext == /\ Len(hist) < Depth
         /\ \E o \in Ops : hist' = Append(hist, o) /\ Do(o)
MSpec == MInit /\ [][MNext]_<<vars, ext, clim, refused, hist>>
Emit == Len(hist) = Depth => PrintT("BEH store " \o ToJson(hist))
Last == hist'[Len(hist')]
OthersUntouched == [][hist' # hist => \A u \in U : u # Last.u =>
                        vars'[u] = vars[u] /\ ext'[u] = ext[u] /\ clim'[u] = clim[u]]_<<vars, ext, clim, refused, hist>>
RefusedChangesNothing == [][refused' = 1 => vars' = vars /\ ext' = ext /\ clim' = clim]_<<vars, ext, clim, refused, hist>>
(* extra values are kept apart from variables: they never show through a variable of the same name, and no operation on one part touches another *)
PartsApart == [][hist' # hist => /\ Last.op # "set" => vars' = vars
                                 /\ Last.op \notin {"ext", "reset"} => ext' = ext
                                 /\ Last.op \notin {"norm", "half"} => clim' = clim]_<<vars, ext, clim, refused, hist>>
ReadsBack == [][(hist' # hist /\ refused' = 0 /\ Last.op = "set") => vars'[Last.u][Last.n] = Last.v]_<<vars, ext, clim, refused, hist>>
=============================================================================
