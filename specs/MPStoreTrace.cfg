SPECIFICATION TraceSpec
CONSTANTS Ref0 = 1024 FSn = 3 FSd = 2 FCn = 1 FCd = 4 Cap = 14
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
