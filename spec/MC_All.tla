------------------------------- MODULE MC_All -------------------------------
(* Every command, every error of every call it makes, on full and partial
   targets. *)
EXTENDS Catalog
Minus(x) == Cfg(Everything \ x)
MyConfigs == << Cfg(Everything), Minus({"multi", "tdesc", "lldbov"}), [Minus({"tdesc"}) EXCEPT !.uw = 4], Minus({"ext", "curpid", "rle"}),
                Minus({"curpid", "lldbov"}), Cfg(Common \cup {"resume"}), [Cfg(Everything) EXCEPT !.owned = TRUE],
                [Minus({"noack"}) EXCEPT !.cap = 100] >>
MyPackets(cc, s) == Commands0
MyRaw(cc, s) == {}
MyReasons(cc, s) == {[NoReason EXCEPT !.k = "Signal", !.n = 11], [NoReason EXCEPT !.k = "Exited", !.n = 1]}
MyData(cc, f, a) == StdData(cc, f, a)
MyErrs(cc, f) == AllErrs(cc, f)
MyDepth == IF Thorough THEN 3 ELSE 1
MyCount == 0
MyProps == TRUE
=============================================================================
