SPECIFICATION MCSpec
CONSTANTS NC = 1 NB = 1 T = 3 News = {TRUE, FALSE}
INVARIANTS Order Exactly NotStuck
PROPERTIES Stopped NotPast Walk
CHECK_DEADLOCK FALSE
