SPECIFICATION Spec
CONSTANT MaxLen = 7
INVARIANTS RoundTrip RoundTripNoted RoundTripPadded Split Total Emit
CHECK_DEADLOCK FALSE
