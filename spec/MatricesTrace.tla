---------------------------- MODULE MatricesTrace ----------------------------
(* Conformance of makeYbus, makeSbus, makeB, makeBdc with Matrices.           *)
EXTENDS TraceRun, Matrices
Tol == "1e-10"
Mats(e) == LET c == e.c IN Failing({
    <<"BusAdmittance", CMatClose(e.Ybus, YbusOf(c), Tol)>>,
    <<"FromAdmittance", CMatClose(e.Yf, YfOf(c), Tol)>>,
    <<"ToAdmittance", CMatClose(e.Yt, YtOf(c), Tol)>>,
    <<"BusInjections", CSeqClose(e.Sbus, SbusOf(c), Tol)>>,
    <<"BprimeXB", MatClose(e.Bp2, BpOf(c, 2), Tol)>>,
    <<"BprimeBX", MatClose(e.Bp3, BpOf(c, 3), Tol)>>,
    <<"BdoubleprimeXB", MatClose(e.Bpp2, BppOf(c, 2), Tol)>>,
    <<"BdoubleprimeBX", MatClose(e.Bpp3, BppOf(c, 3), Tol)>>,
    <<"DCBus", MatClose(e.Bbus, BbusOf(c), Tol)>>,
    <<"DCFlow", MatClose(e.Bf, BfOf(c), Tol)>>,
    <<"DCBusInjection", SeqClose(e.Pbusinj, PbusinjOf(c), Tol)>>,
    <<"DCFlowInjection", SeqClose(e.Pfinj, PfinjOf(c), Tol)>>,
    <<"InputUntouched", e.untouched>> })
Verdict(e) == CASE e.ev = "mats" -> Mats(e) [] e.ev = "raised" -> {"Raised"}
TraceNext == l < Len(TraceLog) /\ l' = l + 1 /\ Report(l + 1, Verdict(TraceLog[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
