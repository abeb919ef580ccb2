SPECIFICATION MSpec
CONSTANTS MaxGiven = 3
Vals = {"x"}
INVARIANTS AsGiven RefusedIff NothingLost
