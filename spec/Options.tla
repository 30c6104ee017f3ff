------------------------------- MODULE Options -------------------------------
(* Options vectors.  A vector maps every documented option to a value; the   *)
(* default vector is fixed.  Values are written as strings: numbers and      *)
(* truth values as decimals, text with a leading "s:".                       *)
EXTENDS Integers, Sequences, FiniteSets

Defaults == [
    PF_ALG |-> "1.0", PF_TOL |-> "1e-08", PF_MAX_IT |-> "10.0", PF_MAX_IT_FD |-> "30.0", PF_MAX_IT_GS |-> "1000.0",
    ENFORCE_Q_LIMS |-> "0.0", PF_DC |-> "0.0", PF_LIN_SOLVER_NR |-> "s:",
    CPF_PARAMETERIZATION |-> "3.0", CPF_STOP_AT |-> "s:NOSE", CPF_STEP |-> "0.05", CPF_ADAPT_STEP |-> "0.0", CPF_ERROR_TOL |-> "0.001",
    CPF_STEP_MIN |-> "0.0001", CPF_STEP_MAX |-> "0.2", CPF_PLOT_LEVEL |-> "0.0", CPF_PLOT_BUS |-> "s:", CPF_USER_CALLBACK |-> "s:",
    CPF_USER_CALLBACK_ARGS |-> "s:",
    OPF_ALG |-> "0.0", OPF_VIOLATION |-> "5e-06", OPF_FLOW_LIM |-> "0.0", OPF_IGNORE_ANG_LIM |-> "0.0", OPF_ALG_DC |-> "0.0",
    VERBOSE |-> "1.0", OUT_ALL |-> "-1.0", OUT_SYS_SUM |-> "1.0", OUT_AREA_SUM |-> "0.0", OUT_BUS |-> "1.0", OUT_BRANCH |-> "1.0",
    OUT_GEN |-> "0.0", OUT_ALL_LIM |-> "-1.0", OUT_V_LIM |-> "1.0", OUT_LINE_LIM |-> "1.0", OUT_PG_LIM |-> "1.0", OUT_QG_LIM |-> "1.0",
    RETURN_RAW_DER |-> "0.0",
    PDIPM_FEASTOL |-> "0.0", PDIPM_GRADTOL |-> "1e-06", PDIPM_COMPTOL |-> "1e-06", PDIPM_COSTTOL |-> "1e-06", PDIPM_MAX_IT |-> "150.0",
    SCPDIPM_RED_IT |-> "20.0",
    GRB_METHOD |-> "1.0", GRB_TIMELIMIT |-> "inf", GRB_THREADS |-> "0.0", GRB_OPT |-> "0.0"]

\* kw: the options named in a call, as a sequence of <<name, value>> (each name once)
RECURSIVE Override(_, _)
Override(v, kw) == IF kw = <<>> THEN v ELSE
    Override([n \in DOMAIN v \cup {kw[1][1]} |-> IF n = kw[1][1] THEN kw[1][2] ELSE v[n]], Tail(kw))

\* a history over vectors (a sequence): a new default vector, one derived from vector i, or the
\* holder of vector i sets an entry of it
Step(vs, a) == CASE a.op = "new" -> Append(vs, Override(Defaults, a.kw))
                 [] a.op = "from" -> Append(vs, Override(vs[a.i], a.kw))
                 [] a.op = "set" -> [vs EXCEPT ![a.i] = Override(@, a.kw)]
=============================================================================
