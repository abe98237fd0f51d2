for i in ["C20","C21","C22","C23","C24"]: NA[i]=PURE
NA["C25"]="the recursion circuit is unfinished upstream (public-input gates and the final Schnorr check are not wired; the only test is ignored), and what exists is a pure circuit-construction function: nothing to schedule or to fail"
NA["C26"]="the range checks these gadgets rely on are not enforced by the circuit upstream (limbs on unrouted wires, reversed digit order in assert_dibit_length), so the statement is known not to hold and no faithful adversary run can decide more; the honest values are claimed as C15"
