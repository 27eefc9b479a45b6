SPECIFICATION TSpec
CONSTANTS Strict = TRUE
INVARIANTS ReadyOnlyConfirmed ChannelsOfKnown
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
