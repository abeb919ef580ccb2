SPECIFICATION MCSpec
CONSTANTS NC = 2 NB = 2 T = 1 News = {TRUE, FALSE}
INVARIANTS Order Exactly NotStuck
PROPERTIES Stopped NotPast Walk
CHECK_DEADLOCK FALSE
