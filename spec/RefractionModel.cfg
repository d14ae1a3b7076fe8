SPECIFICATION Spec
INVARIANTS ThumbRulesAgree MoreAirLower ThickAirMore Fine NearZenith ThumbAndIntegral ColoursSpread LightSeenIsLower NoAirNoBend Pulkovo
CHECK_DEADLOCK FALSE
