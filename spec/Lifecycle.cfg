SPECIFICATION Spec
CONSTANTS Conn = {c1, c2}
          MaxSend = 2
          Leak = "none"
INVARIANT Order
PROPERTIES ReleasedAfterwards Served Accepted Terminates
CHECK_DEADLOCK FALSE
