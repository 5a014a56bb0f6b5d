from . import timed

def cases(tier):
    return timed.make(tier, "agents") + timed.pendings(tier, "delay")
