"""Which suites decide which property."""
from suite_replay import Replay
from suite_sched import Sched
from suite_model import Model
from suite_trace import Trace

S = Sched


def M(*names):
    return Model("SchedMC", ["SchedMC_%s_quick.cfg" % n for n in names], ["SchedMC_%s_thorough.cfg" % n for n in names], "all behaviours allowed by Sched")


PROPS = {
    "P01": [M("inline"), S([("mix", 1200, 30000), ("pools", 500, 10000), ("inline", 500, 10000), ("throw", 300, 5000), ("startup", 300, 5000)], ["P01", "P03:deadlock"])],
    "P02": [M("group"), S([("group", 1600, 40000), ("group1", 1200, 30000)], ["P02"]), Replay([("group", 30, 3000), ("wide", 20, 2000)], ["P02"])],
    "P03": [M("group", "multi"), S([("group", 900, 25000), ("group1", 700, 15000), ("mix", 600, 15000), ("pools", 400, 10000), ("prio", 300, 8000)], ["P03"]), Replay([("multi", 30, 3000), ("group", 20, 2000), ("order", 10, 1000)], ["P03"])],
    "P04": [M("order", "prio"), S([("prio", 1400, 40000), ("group1", 1000, 20000), ("pools", 400, 10000)], ["P04"]), Replay([("order", 30, 3000), ("prio", 30, 3000)], ["P04"])],
    "P05": [M("pools"), S([("pools", 1500, 40000), ("mix", 800, 20000), ("shutdown", 400, 5000)], ["P05"]), Replay([("pools", 40, 4000)], ["P05"])],
    "P06": [M("inline"), S([("inline", 2000, 50000), ("scope", 400, 10000), ("mix", 400, 10000)], ["P06"]), Replay([("inline", 40, 1500)], ["P06"])],
    "P07": [S([("idle", 1700, 40000), ("hold", 700, 20000)], ["P07"])],
    "P08": [S([("startup", 2500, 60000)], ["P08", "P01:task never ran", "P01:ran but"])],
    "P09": [S([("shutdown", 1400, 40000), ("edge", 1000, 25000)], ["P09"]), Trace("d_chrono", [("every", 500, 15000), ("delay", 500, 15000)], ["P09"])],
    "P10": [S([("force", 2500, 60000)], ["P10"])],
    "P11": [Trace("d_data", [("mix", 3500, 80000), ("last", 500, 10000)], ["P11"])],
    "P12": [Trace("d_data", [("last", 3500, 80000), ("mix", 500, 10000)], ["P12"])],
    "P13": [M("buffer"), S([("buffer", 2200, 60000), ("throw", 300, 10000)], ["P13"]), Replay([("buffer", 40, 4000)], ["P13"])],
    "P14": [M("ctl", "once"), S([("ctl", 1500, 40000), ("once", 900, 25000), ("bind", 300, 10000)], ["P14"]), Replay([("ctl", 40, 1500), ("once", 25, 1500)], ["P14"])],
    "P16": [Trace("d_chrono", [("every", 1500, 40000), ("delay", 1200, 40000), ("travel", 300, 8000)], ["P16", "P14"])],
    "P17": [Trace("d_chrono", [("watch", 3000, 80000)], ["P17", "P16:deadlock"])],
    "P18": [Trace("d_chrono", [("travel", 2600, 70000), ("watch", 400, 10000)], ["P18", "P16:deadlock"])],
    "P15": [S([("throw", 2500, 60000)], ["P01", "P02", "P03", "P13", "P15", "P21"])],
    "P19": [Trace("d_io", [("solo", 1500, 40000), ("multi", 1500, 40000)], ["P19"])],
    "P29": [Trace("d_tracefile", [("quiet", 600, 15000), ("race", 500, 15000)], ["P29"])],
    "P30": [Trace("d_sock", [("mix", 600, 20000), ("tcp", 120, 5000), ("ports", 30, 1000)], ["P30"])],
    "P20": [Trace("d_observe", [("events", 650, 30000), ("log", 150, 5000)], ["P20"])],
    "P27": [Trace("d_observe", [("log", 1400, 40000)], ["P27"])],
    "P22": [Trace("d_network", [("member", 300, 15000), ("address", 40, 2000)], ["P22"]), Trace("d_netctl", [("race", 220, 10000)], ["P22"])],
    "P23": [Trace("d_network", [("reliable", 330, 12000), ("wrap", 60, 2000), ("burst", 8, 300)], ["P23"])],
    "P24": [Trace("d_network", [("frag", 420, 15000), ("wrap", 60, 2000)], ["P24"])],
    "P25": [Trace("d_network", [("address", 350, 12000)], ["P25", "P24:delivered what"]), Trace("d_netctl", [("mix", 500, 20000), ("race", 150, 5000)], ["P25"])],
    "P26": [Trace("d_network", [("inject", 900, 30000)], ["P2"]), Trace("d_netctl", [("bad", 300, 10000)], ["P2"])],
    "P28": [Trace("d_serialise", [("all", 1200, 40000)], ["P28"])],
    "P31": [Trace("d_queue", [("mpmc", 6000, 150000), ("mpsc", 4000, 100000)], ["P31"])],
    "P21": [S([("scope", 2500, 60000)], ["P21"]), Replay([("scope", 40, 1500)], ["P21"])],
}
NOT_YET = {}
TECHNIQUE = {}
LEVEL_NOTES = {}
