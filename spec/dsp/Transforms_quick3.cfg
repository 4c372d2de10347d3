SPECIFICATION Spec
CONSTANTS Size = 3
 Values = {0, 1}
 Imag = {0, 1}
 Bug = "none"
INVARIANTS ConvIsSum Commutes Impulse ConvTheorem RoundTrip InverseIsSum
CHECK_DEADLOCK FALSE
