"""What each property's check runs: recorders (units), trace specifications, design models."""
RUNS = {"module": "RunsMC", "cfg": "RunsMC.cfg"}
U64 = {"module": "U64MC", "cfg": "U64MC.cfg"}
GENBV = {"module": "BitVecGen", "cfg": "BitVecGen.cfg", "num": 100, "num_thorough": 2000, "depth": 31}
GENIT = {"module": "IterGen", "cfg": "IterGen.cfg", "cfg_thorough": "IterGenT.cfg", "num": 0, "simulate": False}
ITMC = {"module": "IterMC", "cfg": "IterMC.cfg"}
SMC = {"module": "SortedMC", "cfg": "SortedMC.cfg"}
RMC = {"module": "RmqMC", "cfg": "RmqMC.cfg"}
RBMC = {"module": "RmqBigMC", "cfg": "RmqBigMC.cfg", "thorough": "RmqBigMCT.cfg"}
EBMC = {"module": "EFBigMC", "cfg": "EFBigMC.cfg", "thorough": "EFBigMCT.cfg"}
WBMC = {"module": "WavBigMC", "cfg": "WavBigMC.cfg", "thorough": "WavBigMCT.cfg"}
HMC = {"module": "HeapMC", "cfg": "HeapMC.cfg"}
PMC = {"module": "PureMC", "cfg": "PureMC.cfg", "thorough": "PureMCT.cfg"}
WMC = {"module": "WaveletMC", "cfg": "WaveletMC.cfg"}
BMC = {"module": "BpMC", "cfg": "BpMC.cfg", "thorough": "BpMCT.cfg"}
BBMC = {"module": "BpBigMC", "cfg": "BpBigMC.cfg", "thorough": "BpBigMCT.cfg"}
GENB = {"module": "BuilderGen", "cfg": "BuilderGen.cfg", "cfg_thorough": "BuilderGenT.cfg", "num": 0, "simulate": False}
BIGMC = {"module": "BigMC", "cfg": "BigMC.cfg", "thorough": "BigMCT.cfg"}


def impl(module, *sfx):
    """design layer: the algorithm of the code, with small constants, checked exhaustively against the abstract specification"""
    return [{"module": module, "cfg": f"{module}{x}.cfg", "thorough": f"{module}{x}T.cfg"} for x in sfx]


RSI = impl("RsVecImplMC", "", "2")
ITI = impl("RsIterImpl", "", "1") + [{"module": "RsIterImpl", "cfg": "RsIterImplWT.cfg", "thorough_only": True}]
EFI = impl("EFImplMC", "")
WVI = impl("WaveletImplMC", "1", "2", "3")
BPI = impl("BpImplMC", "", "2", "3", "4")
RMI = impl("RmqImplMC", "", "2")
BVI = impl("BitVecImpl", "")
BVT = "BitVecTrace"
BGV = "BigVecTrace"
BGMC = {"module": "BigVecMC", "cfg": "BigVecMC.cfg", "thorough": "BigVecMCT.cfg"}
BIG = "BigTrace"
PLAN = {
    "C01": {"units": [{"bin": "bitvec", "cmd": "c01", "spec": BVT},
                      {"bin": "bitvec", "cmd": "c01gen", "spec": BVT, "gen": GENBV},
                      {"bin": "big", "cmd": "c01", "spec": BIG, "shards": 2},
                      {"bin": "bigvec", "cmd": "c01", "spec": BGV, "shards": 4}], "models": [U64] + BVI + [BIGMC, BGMC]},
    "C02": {"units": [{"bin": "bitvec", "cmd": "c02", "spec": BVT},
                      {"bin": "bigvec", "cmd": "c02", "spec": BGV, "shards": 4}], "models": [U64] + BVI + [BGMC]},
    "C03": {"units": [{"bin": "bitvec", "cmd": "c03", "spec": BVT},
                      {"bin": "bigvec", "cmd": "c03", "spec": BGV, "shards": 4}], "models": [U64] + BVI + [BGMC]},
    "C04": {"units": [{"bin": "bitvec", "cmd": "c04", "spec": BVT},
                      {"bin": "bigvec", "cmd": "c04", "spec": BGV, "shards": 4}], "models": [U64] + BVI + [BGMC]},
    "C26": {"units": [{"bin": "bitvec", "cmd": "c26", "spec": BVT},
                      {"bin": "big", "cmd": "c26", "spec": BIG, "shards": 4},
                      {"bin": "bigvec", "cmd": "c26", "spec": BGV, "shards": 4}], "models": [U64] + BVI + [BIGMC, BGMC]},
    "C05": {"units": [{"bin": "rsvec", "cmd": "c05", "spec": "RsVecTrace"},
                      {"bin": "big", "cmd": "c05", "spec": BIG, "shards": 2}], "models": [RUNS] + RSI + [BIGMC]},
    "C06": {"units": [{"bin": "rsvec", "cmd": "c06", "spec": "RsVecTrace"},
                      {"bin": "big", "cmd": "c06", "spec": BIG, "shards": 2}], "models": [RUNS] + RSI + [BIGMC]},
    "C07": {"units": [{"bin": "iter", "cmd": "c07", "spec": "IterTrace", "gen": GENIT},
                      {"bin": "iter", "cmd": "c07bs", "spec": "IterTrace", "configs": ["fullns"]},
                      {"bin": "big", "cmd": "c07", "spec": BIG, "shards": 2}], "models": [ITMC] + ITI + [BIGMC]},
    "C09": {"units": [{"bin": "iter", "cmd": "c09", "spec": "IterTrace", "gen": GENIT},
                      {"bin": "big", "cmd": "c09", "spec": BIG, "shards": 2},
                      {"bin": "efbig", "cmd": "c09", "spec": "EFBigTrace", "shards": 2}], "models": [ITMC, BIGMC, EBMC]},
    "C08": {"units": [{"bin": "rsvec", "cmd": "c08", "spec": "RsVecTrace"},
                      {"bin": "big", "cmd": "c08", "spec": BIG, "shards": 2}], "models": [RUNS] + [BIGMC]},
    "C10": {"units": [{"bin": "ef", "cmd": "c10", "spec": "EFTrace"},
                      {"bin": "efbig", "cmd": "c10", "spec": "EFBigTrace", "shards": 4}], "models": [SMC, EBMC] + EFI},
    "C11": {"units": [{"bin": "ef", "cmd": "c11", "spec": "EFTrace"},
                      {"bin": "efbig", "cmd": "c11", "spec": "EFBigTrace", "shards": 4}], "models": [SMC, EBMC] + EFI},
    "C12": {"units": [{"bin": "ef", "cmd": "c12", "spec": "EFTrace"},
                      {"bin": "efbig", "cmd": "c12", "spec": "EFBigTrace", "shards": 4}], "models": [SMC, EBMC] + EFI},
    "C13": {"units": [{"bin": "rmq", "cmd": "c13", "spec": "RmqTrace"},
                      {"bin": "rmq", "cmd": "c13big", "spec": "RmqBigTrace", "shards": 4}], "models": [RMC, RBMC] + RMI},
    "C14": {"units": [{"bin": "rmq", "cmd": "c14", "spec": "RmqTrace"},
                      {"bin": "rmq", "cmd": "c14big", "spec": "RmqBigTrace", "shards": 4}], "models": [RMC, RBMC] + RMI},
    "C15": {"units": [{"bin": "wavelet", "cmd": "c15", "spec": "WaveletTrace"},
                      {"bin": "wavbig", "cmd": "c15", "spec": "WavBigTrace", "shards": 2}], "models": [WMC, WBMC] + WVI},
    "C16": {"units": [{"bin": "wavelet", "cmd": "c16", "spec": "WaveletTrace"},
                      {"bin": "wavbig", "cmd": "c16", "spec": "WavBigTrace", "shards": 2}], "models": [WMC, WBMC] + WVI},
    "C17": {"units": [{"bin": "wavelet", "cmd": "c17", "spec": "WaveletTrace"},
                      {"bin": "wavbig", "cmd": "c17", "spec": "WavBigTrace", "shards": 2}], "models": [WMC, WBMC] + WVI},
    "C18": {"units": [{"bin": "wavelet", "cmd": "c18", "spec": "WaveletTrace"},
                      {"bin": "wavbig", "cmd": "c18", "spec": "WavBigTrace", "shards": 2}], "models": [WMC, WBMC] + WVI},
    "C19": {"units": [{"bin": "bp", "cmd": "c19", "spec": "BpTrace"},
                      {"bin": "bp", "cmd": "c19big", "spec": "BpBigTrace"}], "models": [BMC, BBMC] + BPI, "configs": ["fb", "fullns", "full"]},
    "C20": {"units": [{"bin": "bp", "cmd": "c20", "spec": "BpTrace"},
                      {"bin": "bp", "cmd": "c20big", "spec": "BpBigTrace"}], "models": [BMC, BBMC] + BPI, "configs": ["fb", "fullns", "full"]},
    "C21": {"units": [{"bin": "bp", "cmd": "c21", "spec": "BpTrace"},
                      {"bin": "bp", "cmd": "c21big", "spec": "BpBigTrace"}], "models": [BMC, BBMC] + BPI, "configs": ["fb", "fullns", "full"]},
    "C22": {"units": [{"bin": "bp", "cmd": "c22", "spec": "BpTrace", "gen": GENB},
                      {"bin": "bp", "cmd": "c22big", "spec": "BpBigTrace"}], "models": [BMC, BBMC] + BPI[:1]},
    "C23": {"units": [{"bin": "bitvec", "cmd": "c23bv", "spec": BVT}, {"bin": "bigvec", "cmd": "c23", "spec": BGV, "shards": 4}, {"bin": "ser", "cmd": "rs", "spec": "RsVecTrace"},
                      {"bin": "ser", "cmd": "ef", "spec": "EFTrace"}, {"bin": "ser", "cmd": "rmq", "spec": "RmqTrace"},
                      {"bin": "ser", "cmd": "wav", "spec": "WaveletTrace"}, {"bin": "ser", "cmd": "bp", "spec": "BpTrace"}],
            "models": [U64], "ser": True},
    "C24": {"units": [{"bin": "bitvec", "cmd": "c24", "spec": BVT}, {"bin": "rsvec", "cmd": "c24", "spec": "RsVecTrace"},
                      {"bin": "ef", "cmd": "c24", "spec": "EFTrace"}, {"bin": "rmq", "cmd": "c24", "spec": "RmqTrace"},
                      {"bin": "wavelet", "cmd": "c24", "spec": "WaveletTrace"}, {"bin": "bp", "cmd": "c24", "spec": "BpTrace"},
                      {"bin": "iter", "cmd": "c07", "spec": "IterTrace", "gen": GENIT, "configs": ["dbg"]},
                      {"bin": "iter", "cmd": "c09", "spec": "IterTrace", "gen": GENIT, "configs": ["dbg"]}],
            "models": [U64], "configs": ["fb", "fullns", "dbg"]},
    "C25": {"units": [{"bin": "rsvec", "cmd": "c05"}, {"bin": "rsvec", "cmd": "c06"}, {"bin": "bitvec", "cmd": "c01"}, {"bin": "iter", "cmd": "c07", "gen": GENIT}, {"bin": "iter", "cmd": "c07bs"},
                      {"bin": "ef", "cmd": "c11"}, {"bin": "rmq", "cmd": "c14"}, {"bin": "wavelet", "cmd": "c16"},
                      {"bin": "bp", "cmd": "c19"}, {"bin": "bp", "cmd": "c20"}],
            "models": [], "configs": ["fb", "rel", "fullns", "full", "dbg"], "cross": True},
    "C28": {"units": [{"bin": "pure", "cmd": "c28", "spec": "PureTrace"}], "models": [PMC,
                      {"module": "PureMC", "cfg": "PureMCRace.cfg", "refuted": "Pure1"}, {"module": "PureMC", "cfg": "PureMCPlace.cfg", "refuted": "Pure1"}], "configs": ["fb", "full"]},
    "C29": {"units": [{"bin": "bitvec", "cmd": "c29", "spec": BVT},
                      {"bin": "bigvec", "cmd": "c29", "spec": BGV, "shards": 4}], "models": [U64] + BVI + [BGMC]},
    "C27": {"units": [{"bin": "heap", "cmd": "c27", "spec": "HeapTrace"}], "models": [HMC], "configs": ["fb", "full", "mem"]},
    "C30": {"units": [{"bin": "space", "cmd": "c30", "spec": "SpaceTrace"}],
            "models": [{"module": "SpaceMC", "cfg": "SpaceMC.cfg", "thorough": "SpaceMCT.cfg"}], "configs": ["fb", "full"]},
    "C31": {"units": [{"bin": "work", "cmd": "c31", "spec": "WorkTrace"}],
            "models": [{"module": "WorkMC", "cfg": "WorkMC.cfg", "thorough": "WorkMCT.cfg"}], "configs": ["rel"]},
}
