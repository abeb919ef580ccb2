INIT MCInit
NEXT GenNext
CONSTANTS Ref0 = 8 FSn = 3 FSd = 2 FCn = 1 FCd = 4 SoftTh = 8 SoftAfter = 4 AsyncTh = 9 AsyncAfter = 5 Cap = 14
CONSTANTS Nels = {1, 2, 3, 8, 12} Targets = {2, 4, 6} DNs = {4, 16, 20} MaxId = 200 Depth = 22 MaxList = 3
INVARIANT Emit

CHECK_DEADLOCK FALSE
CONSTANT Surv <- FewSurv
