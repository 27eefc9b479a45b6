SPECIFICATION TSpec
CONSTANTS Strict = FALSE
INVARIANTS ReadyOnlyConfirmed ChannelsOfKnown
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
