SPECIFICATION Spec
CONSTANTS Size = 5
 Values = {0, 1, 3}
 Imag = {0}
 Bug = "none"
INVARIANTS ConvIsSum Commutes Impulse ConvTheorem RoundTrip InverseIsSum
CHECK_DEADLOCK FALSE
