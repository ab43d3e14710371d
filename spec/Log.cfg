SPECIFICATION Spec
CONSTANTS
  Seed = 7
  MaxN = 3
  MaxSeg = 2
  MaxV = 2
INVARIANTS ToldInOrder Current CountsUp ConfOnce SeedTold OneHeadEach OnlyAdds RecordSame FailTold PrintedIsTold
CHECK_DEADLOCK FALSE
