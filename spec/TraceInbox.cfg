CONSTANTS
  Receivers <- TReceivers
  Channels <- TChannels
SPECIFICATION TSpec
CONSTRAINT Report
CHECK_DEADLOCK FALSE
