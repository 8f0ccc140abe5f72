"""small helpers that touch pdr's own objects"""


def quiet_tracker():
    """a tracker which writes nothing (debug mode's default one logs into
    pdr's package directory)"""
    from dustgoggles.tracker import TrivialTracker
    return TrivialTracker()
