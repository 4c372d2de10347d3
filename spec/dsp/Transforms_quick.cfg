SPECIFICATION Spec
CONSTANTS Size = 4
 Values = {0, 2}
 Imag = {0}
 Bug = "none"
INVARIANTS ConvIsSum Commutes Impulse ConvTheorem RoundTrip InverseIsSum
CHECK_DEADLOCK FALSE
