"""Stand-in for the rat library: importing it is all echidna does."""
