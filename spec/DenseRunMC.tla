----------------------------- MODULE DenseRunMC -----------------------------
(* The graphs of neighbours the runs are explored on.                         *)
EXTENDS DenseRun
Graphs == {<<<<2>>, <<1, 3>>, <<2>>>>, <<<<2>>, <<1>>, <<>>>>, <<<<2, 3>>, <<1>>, <<1>>>>, <<<<2, 3>>, <<1, 3>>, <<1, 2>>>>}
=============================================================================
