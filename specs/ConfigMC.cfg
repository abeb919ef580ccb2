SPECIFICATION MSpec
CONSTANTS MaxGiven = 1
Vals = {"x", "y"}
INVARIANTS AsGiven RefusedIff NothingLost
