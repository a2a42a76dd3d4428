SPECIFICATION Spec
INVARIANTS Ring Field Powers Trig Deriv Order Matrices Compare
CHECK_DEADLOCK FALSE
