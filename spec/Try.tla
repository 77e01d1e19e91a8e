--------------------------------- MODULE Try ---------------------------------
(* The value of a boolean expression, and FALSE where it has none (evaluated   *)
(* by java/tlc2/overrides): a recorded event on which the specification is not *)
(* even defined, say because an element is missing, is not allowed by it.      *)
RTry(e) == e
=============================================================================
