-------------------------- MODULE RldpSizesScripts --------------------------
(* Every combination of limits, compression settings, contents and sizes.    *)
EXTENDS Integers, Sequences, ScriptKit
CONSTANTS Limits, Contents, Sizes
VARIABLE s
Init == s \in {<<la, lb, fa, fb, qs, qc, as, ac>> :
                 la \in Limits, lb \in Limits, fa \in BOOLEAN, fb \in BOOLEAN,
                 qs \in Sizes, qc \in Contents, as \in Sizes, ac \in Contents}
Next == UNCHANGED s
Spec == Init /\ [][Next]_s
Emit == EmitScript(<<s>>)
=============================================================================
