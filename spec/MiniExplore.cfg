SPECIFICATION ExploreSpec
VIEW ExploreView
INVARIANT ExploreInv
CHECK_DEADLOCK FALSE
