"""Which mismatch between a recorded session and the specification breaks which property.

A mismatch has a family (the kind of step at which it appeared), an aspect (what
differed) and flags:  un = the command is not implemented by this target,
er = the specification expects an error.  Aspects:
  rx nothing happened although it had to (or the reverse)   ack acknowledgement
  enc wire format       nrep number of packets      reply payload      flush
  calls target calls    state session state         why disconnect reason
  err error reported    panic hang bogus bad start  shape (not a session at all)
"""
ALL = None
BASIC = {"rx", "nrep", "reply", "calls", "state", "err", "panic", "hang", "bogus", "bad", "shape"}
DRIVE = {"rx", "state", "why", "err", "nrep", "panic", "hang", "bogus", "bad", "start", "flush", "shape"}

# property -> list of (families, aspects, flag or None)
OWN = {
    "P01": [({"frame"}, ALL, None), (ALL, {"rx"}, None), ({"irq"}, {"rx", "state"}, None), (ALL, {"shape"}, None),
            (ALL, {"bogus"}, None)],
    "P02": [(ALL, {"ack"}, None), ({"noack"}, BASIC, None)],
    "P03": [(ALL, {"enc"}, None), (ALL, {"reply"}, None)],
    "P04": [(ALL, {"nrep", "flush"}, None), ({"ret", "irq", "frame"}, {"reply", "nrep"}, None)],
    "P05": [(ALL, {"state", "why"}, None), ({"detach", "kill", "ret", "irq"}, BASIC, None), ({"stop", "resume"}, {"state", "why", "err"}, None)],
    "P06": [({"irq"}, ALL, None), ({"resume"}, {"nrep", "reply", "state", "rx", "why"}, None), ({"frame", "stop"}, {"rx", "state"}, None)],
    "P07": [({"stop"}, ALL, None), ({"irq", "resume"}, {"nrep", "reply", "err", "why", "panic"}, None)],
    "P08": [({"thread"}, ALL, None), ({"regs", "reg1", "memr", "memw", "resume"}, {"calls", "shape"}, None),
            ({"threads", "halt", "proc", "alive"}, {"calls", "reply"}, None)],
    "P09": [({"resume"}, ALL, None)],
    "P10": [({"memr", "memw"}, ALL, None)],
    "P11": [({"regs", "reg1"}, ALL, None)],
    "P12": [({"bp"}, ALL, None)],
    "P13": [({"supp"}, ALL, None), (ALL, {"rx"}, None), ({"threads", "halt", "stop", "proc"}, {"reply"}, None)],
    "P14": [(ALL, ALL, "un"), ({"unknown"}, ALL, None)],
    "P15": [(ALL, {"err", "bogus"}, None), (ALL, BASIC, "er"), ({"driver"}, ALL, None)],
    "P16": [(ALL, {"panic", "hang"}, None)],
    "P17": [({"xfer"}, ALL, None)],
    "P18": [({"hostio"}, ALL, None)],
    "P19": [({"proc", "cfg", "kill"}, ALL, None)],
    "P20": [({"tpdef", "tpctl"}, ALL, None), ({"tpdata"}, {"calls"}, None)],
    "P21": [({"tpdata", "tpup"}, ALL, None)],
    "P22": [({"threads", "alive", "extra", "halt"}, ALL, None), ({"thread", "proc"}, {"reply", "err", "rx"}, None)],
    "P23": [],      # decided by comparison with the same session without adapters
    "P24": [({"driver", "irq", "stop", "ret"}, ALL, None), (ALL, DRIVE, None)],
    "P26": [({"monitor"}, ALL, None)],
    "P28": [],      # connections by themselves: Pipe.tla
    "P27": [({"catch", "offsets", "reginfo"}, ALL, None)],
}


def owned(prop, fam, aspect, flags):
    for fams, aspects, flag in OWN[prop]:
        if (fams is ALL or fam in fams or fam == "any") and (aspects is ALL or aspect in aspects) \
                and (flag is None or flag in flags):
            return True
    return False
