INIT MCInit
NEXT MCNextM
CONSTANTS Ref0 = 8 FSn = 3 FSd = 2 FCn = 1 FCd = 4 SoftTh = 3 SoftAfter = 2 AsyncTh = 4 AsyncAfter = 2 Cap = 5
CONSTANTS Nels = {1, 2, 8} Targets = {1, 2} DNs = {4, 16} MaxId = 4 Depth = 4 MaxList = 2
CONSTRAINT Bound
VIEW MCView
INVARIANT MCSpecOK
CHECK_DEADLOCK FALSE
CONSTANT Surv <- AllSurv
