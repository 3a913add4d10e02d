APP = "vegapp", "the renderer of events into decks and the projection of the .comm/.med output (both judge nothing)"
TOK = "the tokenizer (a small driver linked with the repository's objects) and vegapp", "the speller of physical lines (judges nothing) and the token driver"
DRV = "a small driver (%s) linked with the repository's objects", "that driver, which only calls public members and prints what they return"
def drv(n): return DRV[0] % n, DRV[1]
CLAIMS = {"C21": ("NonLin, Deck + MC_NonLin", APP), "C19": ("SysOut, Deck, MeshIO, LocalFrames + MC_SysOut", APP), "C15": ("NasOut, Deck, MeshIO, Props, LocalFrames + MC_NasOut", APP), "C18": ("Dynamics + MC_Dynamics", APP), "C14": ("Results + MC_Results", APP), "C17": ("Runner + MC_Runner", APP), "C09": ("Discrete + MC_Discrete", APP), "C16": ("LocalFrames, Axes, Frames, MeshIO + MC_LocalFrames", APP), "C13": ("Order + MC_Order", APP), "C10": ("Faults, Cli, Deck + MC_Faults, MC_Cli", APP), "C08": ("Props, Rat + MC_Props", APP), "C07": ("MeshIO, Frames, Faces + MC_Frames", APP), "C20": ("Faces + MC_Faces", drv("harness/h_faces.cpp")), "C12": ("MeshStore + MC_MeshStore", drv("harness/h_mesh.cpp")), "C11": ("Dofs + MC_Dofs", drv("harness/h_dofs.cpp")), "C01": ("Layout + MC_Layout", TOK), "C02": ("Numbers + MC_Numbers", TOK)}
NOT_APPLICABLE = []
