"""Which machinery decides which property: parts = (family module, trace module), design = exhaustive TLC runs."""
NODES_Q = [("NodesMC", "NodesMC_quick.cfg"), ("CollocMC", "CollocMC.cfg")]
NODES_T = [("NodesMC", "NodesMC.cfg"), ("CollocMC", "CollocMC_thorough.cfg")]
TRANS_Q = [("TranscribeMC", "TranscribeMC.cfg")]
TRANS_T = [("TranscribeMC", "TranscribeMC_thorough.cfg")]
CHECKS = {}


def add(ids, parts, quick=(), thorough=None, **kw):
    for i in ids.split():
        CHECKS[i] = dict(parts=parts, design=dict(quick=list(quick), thorough=list(thorough if thorough is not None else quick)), **kw)


NLP, RET = ("nlp", "TransTrace"), ("retrieve", "RetrieveTrace")
add("C09 C10 C11", [("colloc", "CollocTrace")], NODES_Q, NODES_T)
add("C01 C02 C03 C04 C05 C06 C07 C12 C21", [NLP], TRANS_Q, TRANS_T)
RETR_Q, RETR_T = [("RetrieveMC", "RetrieveMC.cfg")], [("RetrieveMC", "RetrieveMC_thorough.cfg")]
add("C14 C15 C16 C17 C18 C28", [RET], RETR_Q, RETR_T)
add("C26", [RET, NLP], RETR_Q, TRANS_T + RETR_T)
add("C08", [("scale", "ScaleTrace")], TRANS_Q, TRANS_T)
add("C19", [("mesh", "MeshTrace")], [("RefineMC", "RefineMC.cfg")], [("RefineMC", "RefineMC_thorough.cfg")])
add("C20", [("hadapt", "HAdaptTrace")], [("HAdaptMC", "HAdaptMC.cfg")])
add("C24", [("phadapt", "PhAdaptTrace")], [("PhAdaptMC", "PhAdaptMC.cfg")], [("PhAdaptMC", "PhAdaptMC_thorough.cfg")])
add("C23", [("validate", "ValidateTrace")], [("ValidateMC", "ValidateMC.cfg")], [("ValidateMC", "ValidateMC_thorough.cfg")])
add("C13 C22", [("life", "LifeTrace")], [("LifeMC", "LifeMC.cfg")], [("LifeMC", "LifeMC_thorough.cfg")])
add("C27", [("plot", "PlotTrace")], [("PlotMC", "PlotMC.cfg"), ("PlotMC", "PlotMC_plain.cfg")], [("PlotMC", "PlotMC_thorough.cfg"), ("PlotMC", "PlotMC_plain.cfg")])
add("C25", [("endtoend", "EndToEndTrace")], [("EndToEndMC", "EndToEndMC.cfg")], [("EndToEndMC", "EndToEndMC_thorough.cfg")])
add("C29", [("defaults", "TransTrace")], [("DefaultsMC", "DefaultsMC.cfg")], [("DefaultsMC", "DefaultsMC_thorough.cfg")])
add("C30", [("pieces", "TransTrace")], TRANS_Q, TRANS_T)
