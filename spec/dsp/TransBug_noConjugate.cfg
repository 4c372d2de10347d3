SPECIFICATION Spec
CONSTANTS Size = 4
 Values = {0, 1}
 Imag = {0, 1}
 Bug = "noConjugate"
INVARIANTS ConvIsSum Commutes Impulse ConvTheorem RoundTrip InverseIsSum
CHECK_DEADLOCK FALSE
