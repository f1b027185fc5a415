CONSTANTS
  Servers = {1, 2, 3}
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Edge
PROPERTY Authentic
CHECK_DEADLOCK FALSE
