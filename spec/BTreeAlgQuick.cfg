SPECIFICATION Spec
INVARIANT Good
INVARIANT Navigation
VIEW Shape
CHECK_DEADLOCK FALSE
CONSTANTS
    M = 6
    DIFF = TRUE
    N = 8
    Bulk = {2, 3, 5}
    Sample = 1
    Salt = 0
    Ops = {"push", "prepend", "ins", "insm", "bulk", "rm", "uplgone", "upladd", "upsgone", "upsadd", "drain", "upd", "uplr"}
