SPECIFICATION Spec
CONSTANTS Wavelets = {1, 2}
 Scales = {1, 2, 3}
 Signals = {1, 2}
 Bug = "none"
INVARIANT ValueOfRequest
