SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANTS RoundTrip RoundTripNoted RoundTripPadded Split Total Emit
CHECK_DEADLOCK FALSE
