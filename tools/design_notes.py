NOTES = {
 "C04": "Deciding step: the automaton of pending requests; unbounded numbers of pending requests and listeners by the loop rule. Receive-time cleanup of finished requests is observable only through memory when delayed, so it is not specified.",
 "C12": "The division of the LEDs is a postcondition over all patterns of enabled actions.",
 "C25": "Repetition: a step per elapsed interval while held; with PeriodCounter's contract (C34).",
}
